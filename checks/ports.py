"""C17 (Ports.tla) and C26 (SoftPorts.tla)."""
import paths
from checks.reader import show_chars

PRE = """(define (s . cs) (list->string (map integer->char cs)))
(define (codes str) (let lp ((i (- (string-length str) 1)) (l '())) (if (< i 0) l (lp (- i 1) (cons (char->integer (string-ref str i)) l)))))
(define (drain p) (do ((c (read-char p) (read-char p)) (l '() (cons (char->integer c) l))) ((eof-object? c) (reverse l))))
(define (file-codes f) (call-with-input-file f drain))
(define (back a b p) (let* ((x (read p)) (y (read p))) (list (equal? x a) (equal? y b) (eof-object? (read-char p)))))
(define std-in (current-input-port))
(define std-out (current-output-port))
(define std-err (current-error-port))
(define i1 #f) (define i2 #f) (define i3 #f) (define o1 #f) (define o2 #f) (define o3 #f)
(define long (make-string 300 #\\z))
"""
SHOWN = "<<" + ", ".join(paths.tla_str(show_chars(chr(c)) if c not in (34, 92) else "\\" + chr(c)) for c in range(256)) + ">>"
VALUES = [("'abc", "abc", "abc"), ("-12", "-12", "-12"), ("(s 97 34 10 92 200 0)", 'a"\n\\\xc8\x00', '"a\\"\\n\\\\\\310\\000"'), ('"x y"', "x y", '"x y"'), ('""', "", '""'), ("#\\a", "a", "#\\a"), ("#\\space", " ", "#\\space"),
          ("'(a 1 #t () (b . 2))", "(a 1 #t () (b . 2))", "(a 1 #t () (b . 2))"), ("'#(1 x)", "#(1 x)", "#(1 x)"), ("'()", "()", "()"), ("1/2", "1/2", "1/2"), ("#f", "#f", "#f"), ("long", "z" * 300, '"' + "z" * 300 + '"'),
          ("'(\"q\" #\\c)", None, '("q" #\\c)')]


def codes(s):
    return "<<" + ", ".join(str(ord(c)) for c in s) + ">>"


def values(vs):
    return "{" + ", ".join(f"<<{paths.tla_str(e)}, {codes(d if d is not None else w)}, {codes(w)}>>" for e, d, w in vs) + "}"


def texts(r, n):
    """Texts to read: data of the small language of CharReader, blanks and comments, some malformed or incomplete."""
    pieces = ["a", "bx1", "12", "3", " ", "  ", "\n", "; c )(\n", ";;\n", "(", ")", "()", "(a (b) \"s\")", '"x; y"', '"\n"', "'", "''a", "#t", "#f ", "#(", "#(1 a)", "#\\a ", "#\\( ", "\t", "\r\n", "x", '"', "99 ", "(1\n 2)", "\x0c", "b;", "\xff", "\x80", "\x00", "\x7f\xff", '"\xff\x01"', "#\\\xff "]
    out = ["", "a", "(", ")", "\xff", "\xffa", "a\xff\xff b", "\x00b", '"\xff" \xff', "; \xff\n1"]
    for _ in range(n - len(out)):
        k = r.choice([2, 3, 5, 9, 20])
        out.append("".join(r.choice(pieces) for _ in range(k)))
    out.append("".join(chr(r.randrange(256)) for _ in range(30)))
    out.append("x" * 300 + " y")
    return out


ALL = ["read-char", "peek-char", "ready", "read", "read", "close-in", "drain", "write-char", "newline", "display", "write", "flush", "close-out", "get", "copy", "in-string", "in-file", "out-string", "out-file", "file", "set-in", "set-out", "set-err",
       "call-in-string", "call-in-file", "call-out-string", "call-out-file", "long", "wrong"]


def C17(ctx):
    r = ctx.rng

    lens = [(255, 256, 257), (1023, 1024, 1025), (4095, 4096, 4097), (4094, 4098, 8192), (8191, 16384, 16385), (16383, 32768, 65536), (65535, 65537, 100000)]

    def c(nin, nout, ts, vs, chars, ops, length, sim=False):
        ls = [x for t in lens for x in t] if not sim else [r.choice([3, 60, 300]), 4096 + r.randrange(-3, 4), r.randrange(3, 20000)]
        return dict(Lengths="{" + ", ".join(map(str, ls)) + "}", NIn=nin, NOut=nout, Texts="{" + ", ".join(codes(t) for t in ts) + "}", Values=values(vs), Chars="{" + ", ".join(map(str, chars)) + "}", Shown=SHOWN, Ops="<<" + ", ".join(f'"{o}"' for o in ops) + ">>", MaxLen=length, Sim="TRUE" if sim else "FALSE")
    q = ctx.quick
    jobs = [(("Ports", c(1, 1, ["a (1)b", "\xff\x00 2\xff"], VALUES[:1], [0], ["in-string", "read-char", "peek-char", "read", "ready", "close-in", "set-in"], 6 if q else 7), ["Inv"], ["Mono"]), {}),
            (("Ports", c(1, 1, ["x"], VALUES[:1], [98], ["out-file", "out-string", "write-char", "display", "flush", "close-out", "file", "get", "set-out"], 5 if q else 6), ["Inv"], ["Mono"]), {}),
            (("Ports", c(1, 2, ["xy"], VALUES[:1], [255], ["in-string", "out-string", "copy", "set-out", "set-err", "write-char", "newline", "get"], 5 if q else 6), ["Inv"], []), {}),
            (("Ports", c(1, 1, ["1 2"], VALUES[:1], [255], ["out-file", "write", "write-char", "close-out", "in-file", "read", "read-char", "call-out-file", "call-in-file"], 5 if q else 6), ["Inv"], []), {}),
            # one step over many texts and values; every wrong use
            (("Ports", c(1, 1, texts(r, 40), VALUES, [0, 10, 32, 97, 127, 128, 255], ["in-string", "drain", "read", "call-in-string", "out-string", "write", "display", "write-char"], 2), ["Inv"], []), {}),
            # long data
            (("Ports", c(1, 1, ["a"], VALUES[:1], [97], ["long"], 1), ["Inv"], []), {}),
            (("Ports", c(1, 1, ["a"], VALUES[:1], [97], ["in-string", "out-string", "set-in", "set-out", "set-err", "wrong"], 3), ["Inv"], []), {})]
    nb = len(jobs)
    n = 22 if q else 700
    for k in range(8):
        ops = ALL + [["read", "read-char", "peek-char"] * 3, ["write", "display"] * 3, ["file", "flush", "out-file", "in-file", "close-out", "close-in"] * 2, ["copy"] * 5, ["set-in", "set-out", "set-err"] * 3, ["get", "newline", "write-char"] * 2, ["in-string", "read"] * 4, []][k]
        jobs.append((("Ports", c(3, 3, texts(r, 30), VALUES, [0, 10, 32, 97, 127, 128, 255, 13], ops, 0, sim=True), ["Inv"], []), dict(sim=(n, 70), seed=ctx.seed * 61 + k)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:nb]:
        paths.replay(ctx, ps, PRE, gcs=(0,), files={"none.txt": ""}, limit=1000 if q else 40000)
    paths.replay(ctx, sum(res[nb:], []), PRE, gcs=(0, 211), files={"none.txt": ""})
    ctx.assumptions.append("a file is not opened while it is being written and not written while it is read; the position after a malformed datum, the initial current ports and numbers of arguments are not claimed here; what display does with strings and characters inside lists is not claimed")


SOFT = """(define (s . cs) (list->string (map integer->char cs)))
(define (codes str) (let lp ((i (- (string-length str) 1)) (l '())) (if (< i 0) l (lp (- i 1) (cons (char->integer (string-ref str i)) l)))))
(define logs (make-vector 4 '()))
(define sources (make-vector 4 '()))
(define allowed (make-vector 4 -1))
(define std-in (current-input-port))
(define std-out (current-output-port))
(define p1 #f) (define p2 #f) (define p3 #f)
(define long (make-string 300 #\\z))
(define (log-of k) (reverse (vector-ref logs k)))
(define (note k x) (vector-set! logs k (cons x (vector-ref logs k))))
(define (called k) (let ((n (vector-ref allowed k))) (if (= n 0) (begin (vector-set! allowed k -1) (throw 'boom k)) (if (> n 0) (vector-set! allowed k (- n 1))))))
(define eof (read-char (open-input-string "")))
(define (get k flip)
  (let ((l (vector-ref sources k)))
    (if (null? l) (if flip #f eof)
        (begin (vector-set! sources k (cdr l)) (cond ((= (car l) -1) (throw 'boom)) ((= (car l) -2) (if flip eof #f)) (else (integer->char (car l))))))))
(define (make k have n mode)
  (vector-set! logs k '()) (vector-set! sources k '()) (vector-set! allowed k -1)
  (let ((pick (lambda (i p) (if (list-ref have i) p #f))) (flip #f))
    (make-soft-port (list->vector (append (list (pick 0 (lambda (c) (called k) (note k (char->integer c)))) (pick 1 (lambda (str) (called k) (for-each (lambda (c) (note k c)) (codes str))))
      (pick 2 (lambda () (called k) (note k 'flush))) (pick 3 (lambda () (set! flip (not flip)) (get k flip))) (pick 4 (lambda () (called k) (note k 'close)))) (if (= n 6) (list #f) '()))) mode)))
(define (feed k l) (vector-set! sources k (append (vector-ref sources k) l)) 'fed)
(define (trouble k n) (vector-set! allowed k n) 'set)
(define (with-log k thunk) (let ((r (catch #t thunk (lambda (key . r) '!error)))) (list r (log-of k))))
"""


def C26(ctx):
    r = ctx.rng

    def feed(t):
        l = [str(ord(c)) for c in t]
        for _ in range(r.choice([0, 0, 1, 2])):
            l.insert(r.randrange(len(l) + 1), str(r.choice([-1, -2])))
        return "<<" + ", ".join(l) + ">>"

    def c(nport, ts, vs, chars, modes, ops, length, sim=False):
        return dict(NPort=nport, Texts="{" + ", ".join(ts) + "}", Values=values(vs), Chars="{" + ", ".join(map(str, chars)) + "}", Modes="{" + ", ".join(f'"{m}"' for m in modes) + "}", Shown=SHOWN,
                    Ops="<<" + ", ".join(f'"{o}"' for o in ops) + ">>", MaxLen=length, Sim="TRUE" if sim else "FALSE")
    q = ctx.quick
    every = ["make", "set-in", "set-out", "wrong", "read-char", "peek-char", "read", "feed", "write-char", "newline", "display", "write", "flush", "trouble", "close"]
    jobs = [(("SoftPorts", c(1, ["<<97, -1, 98>>", "<<40, 41>>"], VALUES[:1], [0], ["r"], ["make", "feed", "read-char", "peek-char", "read", "close"], 5 if q else 6), ["Inv"], ["Mono"]), {}),
            (("SoftPorts", c(1, ["<<97>>"], VALUES[:1], [255], ["w"], ["make", "write-char", "display", "flush", "trouble", "close"], 4 if q else 5), ["Inv"], ["Mono"]), {}),
            (("SoftPorts", c(1, ["<<97>>"], VALUES[:1], [98], ["rw"], ["make", "feed", "read-char", "peek-char", "write-char", "close", "set-out", "set-in"], 4 if q else 5), ["Inv"], ["Mono"]), {}),
            (("SoftPorts", c(1, [feed(t) for t in texts(r, 20)], VALUES, [0, 10, 97, 255], ["r", "w", "rw"], ["make", "feed", "read", "display", "write", "wrong"], 3 if not q else 2), ["Inv"], []), {})]
    nb = len(jobs)
    n = 30 if q else 900
    for k in range(6):
        ops = every + [["read", "read-char", "peek-char", "feed"] * 2, ["write", "display", "write-char"] * 2, ["trouble", "display", "write"] * 2, ["set-in", "set-out"] * 2, ["feed", "read"] * 3, ["close", "make"]][k]
        jobs.append((("SoftPorts", c(3, [feed(t) for t in texts(r, 30)[:-1]], VALUES, [0, 10, 32, 97, 127, 128, 255], ["r", "w", "rw", "rw"], ops, 0, sim=True), ["Inv"], []), dict(sim=(n, 70), seed=ctx.seed * 67 + k)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:nb]:
        paths.replay(ctx, ps, SOFT, gcs=(0,), limit=1500 if q else 40000)
    paths.replay(ctx, sum(res[nb:], []), SOFT, gcs=(0, 211))
    ctx.assumptions.append("a read that runs into a throw or an end of its input procedure in the middle of a datum, procedures that jump by a continuation or work on the port themselves, and what character an input procedure may give that is not a character are not claimed")
