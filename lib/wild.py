"""Random programs without types: every name is one of three, so that shadowing and
capture are the rule, every expression can be anywhere, and what does not fit is an
error the program catches.  Procedures and loops count down `fuel`, so that programs end."""

NAMES = ["a", "b", "c"]
SYMS = ["s", "t"]
KEYS = ["k1", "k2"]
BASE = dict(const=4, var=9, emit=4, listop=3, pred=2, arith=2, iff=3, cond=2, case=1, andor=2, begin=2, let=4, letstar=3, letrec=2, nlet=2, do=1, lam=4, call=6, app=1, mapf=1, foreach=1,
            setb=4, cc=0, reenter=0, catch=1, throw=0, wind=0, delay=0, force=0, values=0, quasi=0, mutate=0, macro=0, cond_arrow=1, err=0)

PRE = """(define fuel 0)
(define (tick) (set! fuel (- fuel 1)) (if (< fuel 0) (throw 'fuel)))
(define saved #f)
(define again 0)
"""


class Wild:
    def __init__(self, rng, **w):
        self.r = rng
        self.w = dict(BASE)
        self.w.update(w)
        self.opts = [(o, n) for o, n in self.w.items() if n > 0]
        self.tot = sum(n for _, n in self.opts)
        self.label = 0

    def pick(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def name(self):
        return self.pick(NAMES)

    def names(self, n):
        return self.r.sample(NAMES, n)

    def lab(self):
        self.label += 1
        return f"'e{self.label}"

    def const(self):
        return self.pick(["0", "1", "2", "-1", "5", "#t", "#f", "'()", "'s", "'t", "'(1 2)", "'(s)", '"x"', "#\\a"])

    def fn(self, n, d):
        """A procedure of n arguments: what for-each and the like do with something else is not claimed."""
        c = self.r.random()
        if c < 0.3:
            vs = ["u", "w"][:n]
            return f"(lambda ({' '.join(vs)}) ({' '.join([self.name()] + vs)}))"
        if c < 0.4 and n == 1:
            return "car"
        if c < 0.5:
            return self.lam(d, self.name()) if self.p(0.5) or n == 0 else self.lam(d)
        return self.lam(d, f"({' '.join(self.names(n))})")

    def es(self, n, d):
        return " ".join(self.e(d) for _ in range(n))

    def params(self):
        n = self.pick([0, 0, 1, 1, 1, 2, 2, 3])
        ns = self.names(n)
        c = self.r.random()
        if n and c < 0.15:
            return ns[0] if n == 1 else f"({' '.join(ns[:-1])} . {ns[-1]})"
        return f"({' '.join(ns)})"

    def lam(self, d, params=None):
        return f"(lambda {params or self.params()} (tick) {self.body(d)})"

    def body(self, d):
        out = []
        if d > 0 and self.p(0.22):
            for _ in range(self.pick([1, 1, 2])):
                out.append(self.define(d - 1))
        for _ in range(self.pick([0, 0, 0, 1, 1, 2])):
            out.append(self.stmt(d - 1))
        out.append(self.e(d))
        return " ".join(out)

    def define(self, d):
        if self.p(0.5):
            return f"(define {self.name()} {self.e(d)})"
        ps = self.names(self.pick([0, 1, 1, 2]))
        return f"(define ({' '.join([self.name()] + ps)}) (tick) {self.body(d)})"

    def stmt(self, d):
        c = self.r.randrange(4)
        if c == 0:
            return f"(set! {self.name()} {self.e(d)})"
        if c == 1:
            return f"(emit {self.lab()})"
        if c == 2:
            return f"(emit (list {self.lab()} {' '.join(self.names(2))}))"
        return self.e(d)

    def binds(self, ns, d):
        return " ".join(f"({n} {self.e(d)})" for n in ns)

    def e(self, d):
        if d <= 0:
            return self.name() if self.p(0.6) else self.const()
        x = self.r.random() * self.tot
        for o, n in self.opts:
            x -= n
            if x <= 0:
                break
        d -= 1
        r = self.r
        if o == "const":
            return self.const()
        if o == "var":
            return self.name()
        if o == "emit":
            return f"(emit {self.e(d)})" if self.p(0.5) else f"(begin (emit {self.lab()}) {self.e(d)})"
        if o == "listop":
            return self.pick([lambda: f"(list {self.es(r.randrange(4), d)})", lambda: f"(cons {self.es(2, d)})", lambda: f"(car {self.e(d)})", lambda: f"(cdr {self.e(d)})",
                              lambda: f"(append {self.es(2, d)})", lambda: f"(vector {self.es(2, d)})", lambda: f"(length {self.e(d)})", lambda: f"(reverse {self.e(d)})"])()
        if o == "pred":
            return self.pick([lambda: f"(not {self.e(d)})", lambda: f"(null? {self.e(d)})", lambda: f"(pair? {self.e(d)})", lambda: f"(eq? {self.es(2, d)})", lambda: f"(procedure? {self.e(d)})",
                              lambda: f"(equal? {self.es(2, d)})", lambda: f"(eqv? {self.es(2, d)})"])()
        if o == "arith":
            return self.pick([lambda: f"(+ {self.es(2, d)})", lambda: f"(- {self.es(2, d)})", lambda: f"(< {self.es(2, d)})", lambda: f"(+ {self.name()} 1)"])()
        if o == "iff":
            return f"(if {self.es(3, d)})" if self.p(0.85) else f"(if {self.es(2, d)})"
        if o == "cond":
            cl = " ".join(f"({self.e(d)} {self.body(d) if self.p(0.8) else ''})" for _ in range(r.randrange(1, 3)))
            return f"(cond {cl}{f' (else {self.body(d)})' if self.p(0.7) else ''})"
        if o == "cond_arrow":
            return f"(cond ({self.e(d)} => {self.e(d) if self.p(0.4) else self.lam(d, f'({self.name()})')}) (else {self.e(d)}))"
        if o == "case":
            return f"(case {self.e(d)} ((0 s) {self.e(d)}) ((1 () t #\\a) {self.stmt(d)} {self.e(d)}) ((#t #f) {self.e(d)}){f' (else {self.e(d)})' if self.p(0.8) else ''})"
        if o == "andor":
            return f"({self.pick(['and', 'or'])} {self.es(r.randrange(4), d)})"
        if o == "begin":
            return f"(begin {self.stmt(d)} {self.e(d)})"
        if o == "let":
            return f"(let ({self.binds(self.names(r.randrange(4)), d)}) {self.body(d)})"
        if o == "letstar":
            return f"(let* ({self.binds([self.name() for _ in range(r.randrange(4))], d)}) {self.body(d)})"
        if o == "letrec":
            ns = self.names(r.randrange(1, 3))
            return f"(letrec ({' '.join(f'({n} {self.lam(d)})' for n in ns)}) {self.body(d)})"
        if o == "nlet":
            ns = self.names(r.randrange(3))
            return f"(let {self.name()} ({self.binds(ns, d)}) (tick) {self.body(d)})"
        if o == "do":
            ns = self.names(r.randrange(3))
            bs = " ".join(f"({n} {self.e(d)}{' ' + self.e(d) if self.p(0.7) else ''})" for n in ns)
            return f"(do ({bs}) ((begin (tick) {self.e(d)}) {self.es(r.randrange(3), d)}) {self.es(r.randrange(2), d)})"
        if o == "lam":
            return self.lam(d)
        if o == "call":
            f = self.name() if self.p(0.6) else self.e(d) if self.p(0.3) else self.lam(d)
            return f"({f}{''.join(' ' + self.e(d) for _ in range(self.pick([0, 1, 1, 1, 2, 2, 3])))})"
        if o == "app":
            return f"(apply {self.name() if self.p(0.5) else self.lam(d)} {self.e(d) if self.p(0.3) else ''} (list {self.es(r.randrange(3), d)}))"
        if o == "mapf":
            return f"({self.pick(['map', 'map-in-order'])} {self.fn(1, d)} (list {self.es(r.randrange(3), d)}))" if self.p(0.7) else \
                f"(map {self.fn(2, d)} (list {self.es(2, d)}) {self.e(d) if self.p(0.3) else '(list ' + self.es(r.randrange(3), d) + ')'})"
        if o == "foreach":
            return f"(for-each {self.fn(1, d)} (list {self.es(r.randrange(3), d)}))"
        if o == "setb":
            return f"(begin (set! {self.name()} {self.e(d)}) {self.e(d)})"
        if o == "cc":
            c = r.randrange(3)
            if c == 0:
                return f"(call/cc (lambda ({self.name()}) (tick) {self.body(d)}))"
            if c == 1:
                n = self.name()
                return f"(call/cc (lambda ({n}) (set! saved {n}) {self.body(d)}))"
            n = self.name()
            return f"(call-with-current-continuation (lambda ({n}) (tick) {self.stmt(d)} ({n} {self.e(d)})))"
        if o == "reenter":
            return f"(if (and (procedure? saved) (> again 0)) (begin (set! again (- again 1)) (saved {self.e(d)})) {self.e(d)})"
        if o == "catch":
            tag = self.pick(["#t", "'k1", "'k2", "'error", "#t"])
            n = self.name()
            h = self.pick([f"(lambda ({n} . args) (emit {n}) {self.e(d)})", f"(lambda (key . rest) {self.body(d)})", f"(lambda (key . rest) (emit {self.lab()}) key)"])
            th = self.fn(0, d)
            return f"(catch {tag} {th} {h})"
        if o == "throw":
            t = f"(throw '{self.pick(KEYS)} {self.es(r.randrange(3), d)})"
            return t if self.p(0.5) else f"(if {self.e(d)} {t} {self.e(d)})"
        if o == "wind":
            g = lambda: f"(lambda () (emit {self.lab()}))" if self.p(0.6) else f"(lambda () (emit {self.lab()}) {self.e(d - 1)})"
            th = self.fn(0, d)
            return f"(dynamic-wind {g()} {th} {g()})"
        if o == "delay":
            return f"(delay {self.e(d)})"
        if o == "force":
            c = r.randrange(4)
            if c == 0:
                return f"(force {self.e(d)})"
            if c == 1:
                return f"(force {self.name()})"
            n = self.name()
            if c == 2:
                return f"(let (({n} (delay {self.e(d)}))) {self.stmt(d)} (emit (force {n})) {self.body(d)})"
            return f"(letrec (({n} (delay (begin (tick) {self.e(d)})))) (list (force {n}) {self.e(d)} (force {n})))"
        if o == "values":
            c = r.randrange(3)
            if c == 0:
                return f"(call-with-values (lambda () {self.stmt(d) if self.p(0.3) else ''} (values {self.es(r.randrange(4), d)})) {self.pick(['list', self.lam(d), self.fn(2, d), self.lam(d, self.name())])})"
            if c == 1:
                return f"(call-with-values {self.fn(0, d)} list)"
            return f"(values {self.e(d)})"
        if o == "quasi":
            items = lambda: " ".join(self.pick([lambda: "," + self.e(d), lambda: ",@(list " + self.es(r.randrange(3), d) + ")", lambda: "s", lambda: self.name(),
                                                lambda: "(" + "," + self.name() + ")", lambda: "#(," + self.name() + ")", lambda: ",@(let ((z " + self.name() + ")) (if (list? z) z (list z)))"])() for _ in range(r.randrange(1, 4)))
            return f"`({items()})" if self.p(0.75) else f"`({items()} . ,{self.e(d)})"
        if o == "mutate":
            return self.pick([lambda: f"(set-car! {self.name()} {self.e(d)})", lambda: f"(set-cdr! {self.name()} {self.e(d)})", lambda: f"(vector-set! {self.name()} 0 {self.e(d)})"])()
        if o == "macro":
            return f"({self.pick(['m1', 'm2', 'm3', 'm4'])} {self.es(2, d)})"
        if o == "err":
            return self.pick(["(car 5)", "undefined-q", "(undefined-q 1)", "((lambda (q) q))", "(vector-ref (vector) 0)", "(5 5)", "(abs 's)", "(let ((x)) x)", "(if)", "(lambda)", "(cons 1)"])
        raise ValueError(o)

    def program(self, nforms, depth):
        out = [PRE]
        if self.w["macro"]:
            out.append("(define-macro (m1 p q) (list 'let (list (list 'a p)) q))\n(define-macro (m2 . r) `(begin (emit ',r) (list ,@r)))\n"
                       "(define-macro (m3 p q) `(lambda (b) (tick) (set! ,(if (symbol? p) p 'a) b) ,q))\n(define-macro (m4 p q) (if (pair? p) `(m2 ,q ,@(if (list? p) '(1) '())) q))\n")
        for n in NAMES:
            out.append(self.pick([f"(define {n} {self.const()})", f"(define ({n} {self.pick(NAMES)}) (tick) {self.body(1)})", f"(define {n} {self.lam(1)})"]))
        for i in range(nforms):
            out.append(f"(set! fuel {self.pick([12, 20, 30])})")
            out.append(f"(set! again {self.pick([0, 1, 2])})" if self.w["reenter"] else "")
            e = self.e(depth)
            c = r = self.r.random()
            if c < 0.55:
                out.append(f"(emit (catch #t (lambda () {e}) (lambda (key . rest) (list 'err key))))")
            elif c < 0.7:
                out.append(f"(emit {e})")
            elif c < 0.85:
                out.append(f"(define {self.name()} {e})")
            else:
                out.append(f"(define ({self.name()} {' '.join(self.names(self.pick([0, 1, 2])))}) (tick) {self.body(depth - 1)})")
        out.append("(emit (list a b c))")
        return "\n".join(x for x in out if x) + "\n"


def programs(rng, count, nforms=5, depth=4, **w):
    out = []
    while len(out) < count:
        t = Wild(rng, **w).program(nforms, depth)
        if len(t) < 5000:
            out.append(t)
    return out
