"""C09: the garbage-collected heap (GCHeap.tla)."""
import collections
import re

import paths
import run

PRE = r"""(define (wrap kind b)
  (case kind
    ((pair) (cons b 1)) ((cdr) (cons 1 b)) ((list) (list 1 b 2)) ((vector) (vector 0 b)) ((nested) (vector 1 (list (vector b))))
    ((closure) (let ((x b)) (lambda () x))) ((rest) ((lambda r (lambda () (car r))) b)) ((inner) (let () (define (f) b) f)) ((loop) (let lp ((i 0) (x b)) (if (= i 1) (lambda () x) (lp 1 x))))
    ((do) (do ((i 0 (+ i 1)) (x b x) (f #f (lambda () x))) ((= i 2) f))) ((letstar) (let* ((x b) (y x)) (lambda () y))) ((letrec) (letrec ((f (lambda () x)) (x b)) f))
    ((default) (lambda () (call-with-values (lambda () (values 1 b)) (lambda (x y) y))))
    ((value) (let ((h (make-hash-table 3))) (hash-set! h 'k b) h)) ((qvalue) (let ((h (make-hash-table 1))) (hashq-set! h 'k 1) (hashq-set! h 'j 2) (hashq-set! h 'k b) h))
    ((key) (let ((h (make-hash-table 3))) (hashq-set! h b 'v) h)) ((handle) (let ((h (make-hash-table 3))) (hash-create-handle! h 'k b)))
    ((grown) (let ((h (make-hash-table 1))) (hash-set! h 'k b) (do ((i 0 (+ i 1))) ((= i 20) h) (hash-set! h i i))))
    ((promise) (delay b)) ((forced) (let ((p (delay (list b)))) (force p) p)) ((variable) (make-variable b)) ((varset) (let ((v (make-undefined-variable))) (variable-set! v b) v))
    ((alist) (assoc-set! (list (cons 1 2)) 'k b)) ((append) (append (list 1) (list b))) ((quasi) `(1 ,@(list b))) ((improper) (cons 1 (cons 2 b)))
    ((softport) (make-soft-port (vector #f #f #f (lambda () (set! %out b) #\a) #f) "r"))
    ((cont) (let ((k #f)) (let ((v (call/cc (lambda (c) (set! k c) #f)))) (if v (v b) k))))
    ((contarg) (let ((k #f)) (let ((r (list b (call/cc (lambda (c) (set! k c) #f))))) (if (cadr r) ((cadr r) (car r)) k))))
    ((contwind) (let ((k #f)) (let ((v (dynamic-wind (lambda () #f) (lambda () (call/cc (lambda (c) (set! k c) #f))) (lambda () #f)))) (if v (v b) k))))
    ((module) (let ((m (resolve-module (list (gensym))))) (set-module-binder! m (lambda (m s d) (if (eq? s 'x) b #f))) m))
    ((moddef) (%mod b))
    ((moduse) (let ((m (%mod b)) (n (resolve-module (list (gensym))))) (module-use! n m) n))
    ((longvector) (let ((v (make-vector 70000 #f))) (vector-set! v 69999 b) v))
    ((longlist) (let lp ((i 0) (l (list b))) (if (= i 200) l (lp (+ i 1) (cons i l)))))
    ((tables) (let ((v (make-vector 40 #f))) (do ((i 0 (+ i 1))) ((= i 40) v) (let ((h (make-hash-table 7))) (hash-set! h 'k (if (= i 33) b i)) (vector-set! v i h)))))
    ((bigtable) (let ((h (make-hash-table 701))) (do ((i 0 (+ i 1))) ((= i 300)) (hash-set! h i i)) (do ((i 1000 (+ i 1))) ((= i 1030) h) (hash-set! h i b))))
    ((values) (let ((f (lambda (x . r) (lambda () (apply (lambda (y . z) (car z)) x r))))) (f 1 b)))
    ((case) (case 1 ((1) (let ((x b)) (lambda () (if #t x))))))
    (else (error "kind" kind))))
(define %out #f)
(define (%mod b)
  (let ((m (resolve-module (list (gensym)))) (old (current-module)))
    (set-current-module m) (eval (list 'define 'x b)) (eval '(export x)) (set-current-module old) m))
(define-macro (swap a b) (list 'let (list (list 'tmp a)) (list 'set! a b) (list 'set! b 'tmp)))
(define (open kind w)
  (case kind
    ((pair) (car w)) ((cdr) (cdr w)) ((list) (cadr w)) ((vector) (vector-ref w 1)) ((nested) (vector-ref (car (vector-ref w 1)) 0))
    ((longvector) (vector-ref w 69999)) ((longlist) (let lp ((l w)) (if (null? (cdr l)) (car l) (lp (cdr l))))) ((tables) (hash-ref (vector-ref w 33) 'k))
    ((bigtable) (do ((i 1001 (+ i 1)) (b (hash-ref w 1000) (if (eq? b (hash-ref w i)) b #f))) ((= i 1030) b)))
    ((value grown) (hash-ref w 'k)) ((qvalue) (hashq-ref w 'k)) ((key) (hash-fold (lambda (k v o) k) #f w)) ((handle) (cdr w))
    ((promise) (force w)) ((forced) (car (force w))) ((variable varset) (variable-ref w)) ((alist) (assoc-ref w 'k)) ((append quasi) (cadr w)) ((improper) (cddr w))
    ((softport) (read-char w) (let ((o %out)) (set! %out #f) o))
    ((cont contarg contwind) (call/cc (lambda (ret) (w ret))))
    ((module moddef moduse) (module-ref w 'x))
    (else (w))))
(define (body c) (open (car c) (cdr c)))
(define (mk kind id) (cons kind (wrap kind (vector (%tracked id) #f #f))))
(define (put c s d) (vector-set! (body c) s d))
(define (get c s) (vector-ref (body c) s))
(define (shape . roots)
  (let ((seen '()) (b #f))
    (define (nr c) (if c (%tracked-number (vector-ref (body c) 0)) 0))
    (define (walk c)
      (if c
          (let* ((b (body c)) (n (%tracked-number (vector-ref b 0))))
            (if (not (assv n seen))
                (begin (set! seen (insert (cons n (list (car c) (nr (vector-ref b 1)) (nr (vector-ref b 2)))) seen))
                       (walk (vector-ref b 1)) (walk (vector-ref b 2)))))))
    (define (insert e l) (if (or (null? l) (< (car e) (car (car l)))) (cons e l) (cons (car l) (insert e (cdr l)))))
    (define (show e) (string-append "(" (number->string (car e)) " " (symbol->string (cadr e)) " " (number->string (caddr e)) " " (number->string (caddr (cdr e))) ")"))
    (for-each walk roots)
    (list (let lp ((l roots)) (if (null? (cdr l)) (number->string (nr (car l))) (string-append (number->string (nr (car l))) " " (lp (cdr l)))))
          (apply string-append (map show seen)))))
(define %done '())
(define (collect dead)
  (%gc)
  (let lp ((f (%freed)) (bad '()))
    (cond ((null? f) (if (null? bad) 'ok bad))
          ((or (not (memv (car f) dead)) (memv (car f) %done)) (lp (cdr f) (cons (car f) bad)))
          (else (set! %done (cons (car f) %done)) (lp (cdr f) bad)))))
(define (deep n) (if (= n 0) 0 (+ 1 (deep (- n 1)))))
(define (settle) (deep 25) (%gc) (deep 20) (%gc) (deep 25) (%gc) (append (%freed) %done))
(%counting)
(define (within d a b) (list (if (< (car d) a) 'ok d) (if (< (caddr (cdr d)) b) 'ok d)))
(define (steady f)
  (define (round) (do ((i 0 (+ i 1))) ((= i 40)) (f i)) (%gc))
  (round) (round) (round) (round)
  (let ((u (%usage))) (round) (round) (round) (round) (round) (within (map - (%usage) u) 40 4000)))
(define (auto f)
  (let* ((u (%usage)) (stop (+ (caddr u) 16000000)))
    (do ((i 0 (+ i 1))) ((>= (caddr (%usage)) stop)) (do ((j 0 (+ j 1))) ((= j 50)) (f j)))
    (let ((d (map - (%usage) u))) (list (if (< (cadr d) 7000000) 'ok d) (if (< (caddr (cdr d)) 300000000) 'ok d)))))
(define (lst n) (if (= n 0) '() (cons n (lst (- n 1)))))
(define-macro (hold-let r e) (list 'let (list (list 'c r)) (list 'set! r #f) e (list 'set! r 'c)))
(define-macro (hold-arg r e) (list (list 'lambda '(c) (list 'set! r #f) e (list 'set! r 'c)) r))
(define-macro (hold-rest r e) (list (list 'lambda 'c (list 'set! r #f) e (list 'set! r '(cadr c))) 1 r))
(define-macro (hold-operand r e) (list (list 'lambda '(c d) (list 'set! r 'c)) r (list 'begin (list 'set! r #f) e)))
(define-macro (hold-foreach r e) (list 'for-each (list 'lambda '(c) (list 'if '(eqv? c 0) (list 'begin (list 'set! r #f) e) (list 'set! r 'c))) (list 'list 0 r)))
(define-macro (hold-map r e) (list 'map-in-order (list 'lambda '(c) (list 'if '(eqv? c 0) (list 'begin (list 'set! r #f) e) (list 'set! r 'c))) (list 'list 0 r)))
(define-macro (hold-mapres r e) (list 'set! r (list 'car (list 'map-in-order (list 'lambda '(c) (list 'if '(eqv? c 0) (list 'begin (list 'set! r #f) e) 'c)) (list 'list r 0)))))
(define-macro (hold-apply r e) (list 'apply (list 'lambda '(a c) (list 'set! r #f) e (list 'set! r 'c)) 1 (list 'list r)))
(define-macro (hold-values r e) (list 'call-with-values (list 'lambda '() (list 'values r 1)) (list 'lambda '(c d) (list 'set! r #f) e (list 'set! r 'c))))
(define-macro (hold-throw r e) (list 'catch ''x (list 'lambda '() (list 'throw ''x r (list 'begin (list 'set! r #f) e))) (list 'lambda '(k c d) (list 'set! r 'c))))
(define-macro (hold-handler r e) (list 'let (list (list 'c r)) (list 'set! r #f) (list 'catch #t (list 'lambda '() e '(throw 'y)) (list 'lambda 'k (list 'set! r 'c)))))
(define-macro (hold-wind r e) (list 'set! r (list 'dynamic-wind '(lambda () #f) (list 'lambda '() r) (list 'lambda '() (list 'set! r #f) e))))
(define-macro (hold-windthrow r e) (list 'catch ''x (list 'lambda '() (list 'dynamic-wind '(lambda () #f) (list 'lambda '() (list 'throw ''x r)) (list 'lambda '() (list 'set! r #f) e))) (list 'lambda '(k c) (list 'set! r 'c))))
(define-macro (hold-windk r e) (list 'set! r (list 'call/cc (list 'lambda '(k) (list 'dynamic-wind '(lambda () #f) (list 'lambda '() (list 'k r)) (list 'lambda '() (list 'set! r #f) e))))))
(define-macro (hold-k r e) (list 'set! r (list 'call/cc (list 'lambda '(k) (list 'let (list (list 'c r)) (list 'set! r #f) e '(k c))))))
(define-macro (hold-promise r e) (list 'let (list (list 'p (list 'let (list (list 'c r)) (list 'delay (list 'begin e 'c))))) (list 'set! r #f) (list 'set! r '(force p))))
(define-macro (hold-cond r e) (list 'cond (list r '=> (list 'lambda '(c) (list 'set! r #f) e (list 'set! r 'c))) '(else 1)))
(define-macro (hold-do r e) (list 'do (list (list 'c r 'c) '(i 0 (+ i 1))) (list '(= i 2) (list 'set! r 'c)) (list 'set! r #f) e))
(define-macro (hold-loop r e) (list 'let 'lp (list (list 'c r) '(n 2)) (list 'set! r #f) e (list 'if '(= n 0) (list 'set! r 'c) '(lp c (- n 1)))))
(define-macro (hold-quasi r e) (list 'set! r (list 'car (list 'quasiquote (list (list 'unquote r) (list 'unquote (list 'begin (list 'set! r #f) e)))))))
(define-macro (hold-fold r e) (list 'hash-fold (list 'lambda '(k c a) (list 'set! r #f) e (list 'set! r 'c)) 1 (list 'let '((h (make-hash-table 3))) (list 'hash-set! 'h 1 r) 'h)))
(define-macro (hold-acc r e) (list 'let '((h (make-hash-table 3))) '(hash-set! h 1 2) (list 'set! r (list 'hash-fold (list 'lambda '(k v c) (list 'set! r #f) e 'c) r 'h))))
(define-macro (hold-letstar r e) (list 'let* (list (list 'c r) (list 'd (list 'begin (list 'set! r #f) e))) (list 'set! r 'c)))
(define-macro (hold-letrec r e) (list 'letrec (list (list 'f (list 'lambda '() 'c)) (list 'c r)) (list 'set! r #f) e (list 'set! r '(f))))
(define-macro (hold-define r e) (list 'let '() (list 'define 'c r) (list 'set! r #f) e (list 'set! r 'c)))
(define-macro (hold-case r e) (list 'let (list (list 'c r)) (list 'set! r #f) (list 'case (list 'begin e 1) (list '(1) (list 'set! r 'c)))))
(define-macro (hold-and r e) (list 'set! r (list 'let (list (list 'c r)) (list 'and 1 (list 'begin (list 'set! r #f) e #t) 'c))))
(define-macro (hold-reenter r e) (list 'let* (list '(k #f) '(n 0) (list 'c (list 'call/cc (list 'lambda '(x) '(set! k x) r)))) (list 'set! r #f) e '(set! n (+ n 1)) (list 'if '(< n 2) '(k c)) (list 'set! r 'c)))
"""
KINDS = ["pair", "cdr", "list", "vector", "nested", "closure", "rest", "inner", "loop", "do", "letstar", "letrec", "default", "value", "qvalue", "key", "handle", "grown", "promise", "forced",
         "variable", "varset", "alist", "append", "quasi", "improper", "softport", "cont", "contarg", "contwind", "module", "values", "case", "moddef", "moduse", "longvector", "longlist", "tables", "bigtable"]
HOLDS = ["let", "arg", "rest", "operand", "foreach", "map", "mapres", "apply", "values", "throw", "handler", "wind", "windthrow", "windk", "k", "promise", "cond", "do", "loop", "quasi", "fold", "acc",
         "letstar", "letrec", "define", "case", "and", "reenter"]
GARBAGE = dict(
    nothing="#f", pair="(cons i i)", list="(lst 5)", vector="(make-vector 20 i)", bigvector="(make-vector 3000 i)", string="(make-string 40 #\\a)", bigstring="(make-string 5000 #\\a)",
    append='(string-append "abc" (number->string i))', sub='(substring "hello world" 2 7)', float="(/ 1.5 (+ i 1))", ratio="(/ 1 (+ i 2))", closure="(let ((a i)) (lambda () a))",
    table="(let ((h (make-hash-table 3))) (do ((j 0 (+ j 1))) ((= j 9)) (hash-set! h j i)) h)", bigtable="(let ((h (make-hash-table 500))) (hash-set! h 1 i) h)",
    rmtable="(let ((h (make-hash-table 3))) (hash-set! h i i) (hash-remove! h i) (hash-set! h i 2))", promise="(delay i)", forced="(let ((p (delay (list i i)))) (force p) p)", variable="(make-variable i)",
    inport='(let ((p (open-input-string "(a b \\"c\\" 12)"))) (read p) p)', outport='(let ((p (open-output-string))) (write (list i "x") p) (get-output-string p))',
    withport="(call-with-output-string (lambda (p) (display i p)))",
    soft='(let ((p (make-soft-port (vector (lambda (c) c) (lambda (s) s) (lambda () #f) (lambda () #\\a) #f) "rw"))) (read-char p) (write-char #\\a p) (display "abc" p) p)',
    apply="(apply + (list i 1 2))", map="(map (lambda (x) (* x 2)) (list 1 2 i))", values="(call-with-values (lambda () (values i 2)) (lambda (a b) a))",
    catch="(catch #t (lambda () (throw 'x i)) (lambda (k . r) r))", err="(catch #t (lambda () (car i)) (lambda (k . r) r))", unbound="(catch #t (lambda () nope) (lambda (k . r) r))",
    nocatch="(catch #t (lambda () i) (lambda (k . r) r))", wind="(dynamic-wind (lambda () #f) (lambda () i) (lambda () #f))",
    windthrow="(catch 'x (lambda () (dynamic-wind (lambda () #f) (lambda () (throw 'x i)) (lambda () #f))) (lambda (k . r) r))", sym2str="(symbol->string 'abc)", str2num='(string->number "123")',
    num2str="(number->string (* i 1.5))", v2l="(list->vector (vector->list (vector i 1 2)))", qq="`(a ,i ,@(list i i))", macro="(let ((a 1) (b 2)) (swap a b) a)", named="(let lp ((j 0)) (if (< j 3) (lp (+ j 1)) j))",
    assoc="(assoc-set! (list (cons 1 2)) i 3)", acons="(acons i 1 '())", rev="(append (reverse (list 1 2 i)) '(3))", intern='(string->symbol "abc")', idef="(let () (define (g x) (+ x i)) (g 1))",
    cont="(call/cc (lambda (k) (k i)))", contout="(+ 1 (call/cc (lambda (k) (+ 2 (k i)))))", rest="((lambda (a . r) r) 1 i 2)", fold="(let ((h (make-hash-table 3))) (hash-set! h 1 i) (hash-fold (lambda (k v a) (cons v a)) '() h))",
    handle="(let ((h (make-hash-table 3))) (set-cdr! (hash-create-handle! h 1 i) 4) h)", case="(case i ((1 2) 'a) (else (list i)))", do="(do ((j 0 (+ j 1)) (l '() (cons j l))) ((= j 3) l))", gensym="(gensym)",
    file='(let ((p (open-input-file "in.txt"))) (read-char p) (close-input-port p))', ofile='(let ((p (open-output-file "out.txt"))) (write i p) (close-output-port p))', fileopen='(let ((p (open-input-file "in.txt"))) (read-char p))',
    callfile='(call-with-input-file "in.txt" read)', current="(let* ((o (open-output-string)) (old (set-current-output-port o))) (display i) (set-current-output-port old))", load='(load "l.scm")',
    module="(resolve-module '(mm))", modref="(module-ref (current-module) 'steady)", error='(catch #t (lambda () (error "x" i)) (lambda (k . r) r))', cycle="(let ((p (list i 1))) (set-cdr! (cdr p) p) p)",
    vcycle="(let ((v (vector i 1))) (vector-set! v 0 v) v)", ccycle="(let ((f #f)) (set! f (lambda () f)) f)", hcycle="(let ((h (make-hash-table 3))) (hash-set! h 1 h) h)", pcycle="(let ((p #f)) (set! p (delay p)) p)",
    winds="(dynamic-wind (lambda () #f) (lambda () (catch 'y (lambda () (dynamic-wind (lambda () #f) (lambda () (throw 'y)) (lambda () #f))) (lambda k k))) (lambda () #f))",
    deep="(deep 30)", nestcatch="(catch 'a (lambda () (catch 'b (lambda () (throw 'a i)) (lambda k 1))) (lambda k 2))", s2l='(list->string (string->list "abcdef"))', wrong="(catch #t (lambda () ((lambda (x) x))) (lambda k k))",
)


def C09(ctx):
    files = {"in.txt": "hello", "l.scm": "(define lx 1)", "mm.scm": "(define-module (mm))\n(define z 1)"}

    def c(n, cells, kinds, ops, length, garbage=("nothing",), sim=False, holds=HOLDS):
        return dict(NRoot=n, MaxCell=cells, Kinds="{" + ", ".join(f'"{k}"' for k in kinds) + "}", Holds="{" + ", ".join(f'"hold-{h}"' for h in holds) + "}",
                    Garbage="{" + ", ".join(paths.tla_str(f"(lambda (i) {GARBAGE[g]})") for g in garbage) + "}", Ops="{" + ", ".join(f'"{o}"' for o in ops) + "}", MaxLen=length, Sim="TRUE" if sim else "FALSE")
    r = ctx.rng
    two = r.sample(KINDS, 1)
    base = ["new", "drop", "move", "link", "load", "gc"]
    jobs = [(("GCHeap", c(2, 3, two, base, 5 if ctx.quick else 6), ["Inv"], ["Mono"]), {}),
            (("GCHeap", c(1, 1, KINDS, ["new", "hold", "gc"], 2), ["Inv"], ["Mono"]), {}),
            (("GCHeap", c(1, 1, ["pair"], ["churn"], 1, GARBAGE), ["Inv"], ["Mono"]), {}),
            (("GCHeap", c(1, 1, ["pair"], ["auto"], 1, r.sample(sorted(GARBAGE), 5) if ctx.quick else GARBAGE), ["Inv"], ["Mono"]), {})]
    n = 24 if ctx.quick else 1500
    for q in range(6):
        jobs.append((("GCHeap", c(3 + q % 3, 40, KINDS, base * 3 + ["hold", "link"], 0, sim=True), ["Inv"], []), dict(sim=(n, 60), seed=ctx.seed * 71 + q)))
    res = paths.explore_many(ctx, jobs)
    paths.replay(ctx, res[0], PRE, gcs=(0,), limit=1200 if ctx.quick else 20000)
    paths.replay(ctx, res[1], PRE, gcs=(0,))
    paths.replay(ctx, res[2], PRE, gcs=(0,), files=files)
    paths.replay(ctx, res[3], PRE, gcs=(0,), files=files, timeout=100)
    long = sum(res[4:], [])
    paths.replay(ctx, long, PRE, gcs=(0, 101))
    reclaimed(ctx, long)


def reclaimed(ctx, long):
    """In the end nothing is reachable, and collections free it, whatever kind of place held it: over many
    executions, as the stack may happen to hold something."""
    long = long[:240 if ctx.quick else 3000]
    progs = [paths.render(PRE, [s for s in p]) + "".join(f"(set! r{i} #f)" for i in range(1, 9)) + "(emit (settle))\n" for p in long]
    recs = run.run_programs(ctx.bin["harness"], progs, ctx.scratch, gc=0, timeout=10, tag="settle")
    made, freed = collections.Counter(), collections.Counter()
    for p, (ev, st) in zip(long, recs):
        ids = {}
        for op, _ in p:
            if "(mk '" in op:
                k, i = op.split("(mk '")[1].split(")")[0].split()
                ids[int(i)] = k
        if st != "ok" or not ev or not re.fullmatch(r"\((\d+( \d+)*)?\)", ev[-1]):
            ctx.count(unsettled=1)
            continue
        got = set(map(int, ev[-1].strip("()").split())) if ev[-1] != "()" else set()
        for i, k in ids.items():
            if k in ("module", "moddef", "moduse"):
                continue  # a module can be reached by its name
            made[k] += 1
            freed[k] += i in got
    for k in sorted(made):
        share = freed[k] / made[k]
        if made[k] >= 20 and share < 0.9:
            ctx.violation(f"objects held by a dead {k} are not reclaimed: {freed[k]} of {made[k]} were after nothing was reachable any more and several collections", f"program:\n{progs[0]}")
    ctx.count(dead_objects=sum(made.values()), reclaimed_objects=sum(freed.values()), min_share_percent=int(100 * min((freed[k] / made[k] for k in made), default=1)))
