"""Random programs for trace validation.  Every choice comes from the rng given.

Programs terminate: iteration is bounded and a continuation is called again only
while the global `fuel` lasts.  Variable names come from a small pool, so that
shadowing is the rule; the generator tracks the kind of value each name has."""

NAMES = ["a", "b", "c", "x", "y", "z"]
KEYS = ["k1", "k2", "k3"]

BASE = dict(lit=3, var=6, arith=4, emit=3, iff=3, let=3, letstar=2, letrec=1, nlet=1, do=1, begin=2, cond=2, case=1,
            andor=2, setb=3, call=4, lam=2, cc_escape=0, cc_store=0, cc_reenter=0, wind=0, catch=0, throw=0, err=0,
            mapf=1, foreach=1, applyf=1, delay=0, force=0, quasi=0, values=0, pair=1, vec=0, hash=0, macro=0, curry=1,
            innerdef=2, counter=1)


class Gen:
    def __init__(self, rng, **weights):
        self.r = rng
        self.w = dict(BASE)
        self.w.update(weights)
        self.label = 0
        self.globals = {}

    # -- helpers
    def pick(self, xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    def int(self):
        return str(self.r.choice([0, 1, 2, 3, 5, 7, -1, -4, 10]))

    def lab(self):
        self.label += 1
        return f"e{self.label}"

    def vars(self, env, kind):
        return [n for n, k in env.items() if k == kind]

    def settable(self, env):
        return [n for n in self.vars(env, "int") if n not in ("i", "j")]

    def choose(self, opts, depth):
        opts = [(o, self.w.get(o, 1)) for o in opts if self.w.get(o, 1) > 0]
        if depth <= 0:
            small = [(o, w) for o, w in opts if o in ("lit", "var")]
            opts = small or opts[:1]
        tot = sum(w for _, w in opts)
        x = self.r.random() * tot
        for o, w in opts:
            x -= w
            if x <= 0:
                return o
        return opts[-1][0]

    def bind(self, env, names, kinds):
        e = dict(env)
        for n, k in zip(names, kinds):
            e.pop(n, None)
            e[n] = k
        return e

    def names(self, n):
        return self.r.sample(NAMES, n)

    # -- expressions by kind
    def expr(self, kind, d, env):
        return getattr(self, "k_" + kind)(d, env)

    COMMON = ["iff", "let", "letstar", "letrec", "nlet", "do", "begin", "cond", "case", "andor", "call", "cc_escape",
              "cc_store", "cc_reenter", "wind", "catch", "throw", "err", "force", "values", "emit", "innerdef", "macro", "curry"]

    def k_int(self, d, env):
        o = self.choose(["lit", "var", "arith"] + self.COMMON + ["setb", "counter", "vec", "hash", "pair"], d)
        if o == "lit":
            return self.int()
        if o == "var":
            vs = self.vars(env, "int")
            return self.pick(vs) if vs else self.int()
        if o == "arith":
            op = self.pick(["+", "-", "+", "-", "max", "min"])
            return f"({op} {self.k_int(d - 1, env)} {self.k_int(d - 1, env)})"
        if o == "counter":
            return f"({self.pick(['abs', '+', '-'])} {self.k_int(d - 1, env)})"
        if o == "setb":
            vs = self.settable(env)
            if not vs:
                return self.int()
            v = self.pick(vs)
            return f"(begin (set! {v} {self.k_int(d - 1, env)}) {v})"
        if o == "vec":
            vs = self.vars(env, "vec")
            if not vs:
                return f"(vector-ref (vector {self.k_int(d - 1, env)} {self.k_int(d - 1, env)}) {self.pick('01')})"
            v = self.pick(vs)
            if self.chance(0.5):
                return f"(begin (vector-set! {v} {self.pick('012')} {self.k_int(d - 1, env)}) (vector-ref {v} {self.pick('012')}))"
            return f"(vector-ref {v} {self.pick('012')})"
        if o == "hash":
            vs = self.vars(env, "hash")
            if not vs:
                return self.int()
            h = self.pick(vs)
            k = self.pick(["1", "'q", "2", "#\\a", "'(1 2)"])
            p = self.pick(["hash", "hash", "hash"])
            return f"(begin (hash-set! {h} {k} {self.k_int(d - 1, env)}) (hash-ref {h} {k}))"
        if o == "pair":
            return f"({self.pick(['car', 'cadr', 'length'])} (list {self.k_int(d - 1, env)} {self.k_int(d - 1, env)}))"
        return self.common(o, "int", d, env)

    def k_bool(self, d, env):
        c = self.r.randrange(6)
        if d <= 0 or c == 0:
            return self.pick(["#t", "#f"])
        if c == 1:
            return f"({self.pick(['<', '=', '>', '<=', '>='])} {self.k_int(d - 1, env)} {self.k_int(d - 1, env)})"
        if c == 2:
            return f"(not {self.k_bool(d - 1, env)})"
        if c == 3:
            return f"({self.pick(['and', 'or'])} {self.k_bool(d - 1, env)} {self.k_bool(d - 1, env)})"
        if c == 4:
            return f"(null? {self.k_list(d - 1, env)})"
        return f"({self.pick(['even?', 'odd?', 'zero?', 'positive?', 'negative?'])} {self.k_int(d - 1, env)})"

    def k_test(self, d, env):
        # a test position: any value but #f is true
        if self.chance(0.3):
            return self.pick(["0", "'()", '""', "'f"]) if self.chance(0.4) else self.k_any(d - 1, env)
        return self.k_bool(d, env)

    def k_list(self, d, env):
        o = self.choose(["lit", "var", "pair", "mapf", "quasi", "values", "iff", "let", "begin", "applyf", "cc_escape", "catch", "emit",
                         "call_l", "do"], d)
        if o == "lit":
            return self.pick(["'()", "'(1)", "'(1 2 3)", "'(a b)", "'(1 (2 3) x)", "'(() 1)", "(list)"])
        if o == "var":
            vs = self.vars(env, "list")
            return self.pick(vs) if vs else "'(4 5)"
        if o == "pair":
            c = self.r.randrange(7)
            if c == 0:
                return f"(cons {self.k_any(d - 1, env)} {self.k_list(d - 1, env)})"
            if c == 1:
                return "(list " + " ".join(self.k_any(d - 1, env) for _ in range(self.r.randrange(4))) + ")"
            if c == 2:
                return f"(append {self.k_list(d - 1, env)} {self.k_list(d - 1, env)})"
            if c == 3:
                return f"(reverse {self.k_list(d - 1, env)})"
            if c == 4:
                l = self.k_list(d - 1, env)
                return f"(cdr (cons 0 {l}))"
            if c == 5:
                return f"(vector->list (vector {self.k_any(d - 1, env)} {self.k_int(d - 1, env)}))"
            return f"(list-tail (list 1 2 {self.k_any(d - 1, env)}) {self.pick('0123')})"
        if o == "mapf":
            n = self.pick([1, 1, 1, 2, 3])
            f = self.proc(n, d - 1, env)
            ls = " ".join(self.int_list(d - 1, env) for _ in range(n))
            return f"({self.pick(['map', 'map', 'map-in-order'])} {f} {ls})"
        if o == "applyf":
            return f"(apply list {self.k_any(d - 1, env)} {self.k_list(d - 1, env)})"
        if o == "quasi":
            return self.quasi(d, env)
        if o == "values":
            return self.values_expr(d, env, "list")
        if o == "call_l":
            ns = self.names(self.pick([0, 1, 2]))
            rest = self.pick([n for n in NAMES if n not in ns])
            e2 = self.bind(env, ns + [rest], ["int"] * len(ns) + ["list"])
            nargs = len(ns) + self.r.randrange(3)
            args = " ".join(self.k_int(d - 1, env) for _ in range(nargs))
            params = f"({' '.join(ns)} . {rest})" if ns else rest
            return f"((lambda {params} {self.body('list', d - 1, e2)}) {args})"
        return self.common(o, "list", d, env)

    def int_list(self, d, env):
        c = self.r.randrange(4)
        if c == 0 or d <= 0:
            return self.pick(["'()", "'(1)", "'(1 2)", "'(3 1 2)"])
        return "(list " + " ".join(self.k_int(d - 1, env) for _ in range(self.r.randrange(1, 4))) + ")"

    def k_any(self, d, env):
        c = self.r.randrange(10)
        if c < 4:
            return self.k_int(d, env)
        if c < 7:
            return self.k_list(d, env)
        if c == 7:
            return self.k_bool(d, env)
        if c == 8:
            return self.pick(["'s", "'t", '"str"', "#\\a", "'()"])
        vs = [n for n, k in env.items() if k in ("int", "list")]
        return self.pick(vs) if vs else self.k_int(d, env)

    # a procedure expression of n int arguments returning an int
    def proc(self, n, d, env):
        vs = [nm for nm, k in env.items() if k == ("proc", n)]
        if vs and self.chance(0.4):
            return self.pick(vs)
        if self.chance(0.15) and n >= 1:
            return self.pick(["+", "max", "min", "-"] if n > 1 else ["+", "-", "abs"])
        if self.chance(0.2):
            nreq = self.r.randrange(0, n + 1)
            ns = self.names(nreq)
            rest = self.pick([x for x in NAMES if x not in ns])
            e2 = self.bind(env, ns + [rest], ["int"] * nreq + ["list"])
            params = f"({' '.join(ns)} . {rest})" if ns else rest
            return f"(lambda {params} {self.body('int', d - 1, e2)})"
        ns = self.names(n)
        e2 = self.bind(env, ns, ["int"] * n)
        return f"(lambda ({' '.join(ns)}) {self.body('int', d - 1, e2)})"

    def body(self, kind, d, env):
        out = []
        env = dict(env)
        if self.w["innerdef"] and self.chance(0.15) and d > 0:
            n = self.pick(NAMES)
            if self.chance(0.5):
                out.append(f"(define {n} {self.k_int(d - 1, {k: v for k, v in env.items() if k != n})})")
                env = self.bind(env, [n], ["int"])
            else:
                p = self.pick([x for x in NAMES if x != n])
                e2 = self.bind({k: v for k, v in env.items() if k != n}, [p], ["int"])
                out.append(f"(define ({n} {p}) {self.expr('int', d - 1, e2)})")
                env = self.bind(env, [n], [("proc", 1)])
        for _ in range(self.pick([0, 0, 0, 1, 1, 2])):
            out.append(self.effect(d - 1, env))
        out.append(self.expr(kind, d, env))
        return " ".join(out)

    def effect(self, d, env):
        c = self.r.randrange(7)
        vs = self.settable(env)
        if c == 0 and vs:
            return f"(set! {self.pick(vs)} {self.k_int(d, env)})"
        if c == 1 and self.w["foreach"]:
            n = self.pick([1, 1, 2])
            ln = self.r.randrange(3)
            ls = " ".join("(list " + " ".join(self.k_int(d - 1, env) for _ in range(ln)) + ")" for _ in range(n))
            return f"(for-each {self.proc(n, d - 1, env)} {ls})"
        ls = self.vars(env, "list")
        if c == 2 and ls:
            return f"(set! {self.pick(ls)} {self.k_list(d - 1, env)})"
        if c == 3:
            return f"(emit '{self.lab()})"
        return f"(emit {self.k_any(d - 1, env)})"

    def common(self, o, kind, d, env):
        X = lambda dd=None, e=None: self.expr(kind, (d if dd is None else dd) - 1, env if e is None else e)
        if o == "emit":
            return f"(emit {X()})" if self.chance(0.5) else f"(begin (emit '{self.lab()}) {X()})"
        if o == "iff":
            return f"(if {self.k_test(d - 1, env)} {X()} {X()})"
        if o == "begin":
            return f"(begin {self.effect(d - 1, env)} {X()})"
        if o in ("let", "letstar"):
            n = self.pick([0, 1, 1, 2, 3]) if o == "let" else self.pick([1, 2, 2, 3])
            ns = self.names(n) if o == "let" else [self.pick(NAMES) for _ in range(n)]
            e2, bs = dict(env), []
            for nm in ns:
                k = self.pick(["int", "int", "list", "proc"] + (["vec"] if self.w["vec"] else []) + (["hash"] if self.w["hash"] else []))
                src = env if o == "let" else e2
                if k == "proc":
                    np = self.pick([0, 1, 2])
                    init, kk = self.proc(np, d - 1, src), ("proc", np)
                elif k == "vec":
                    init, kk = "(vector 1 2 3)", "vec"
                elif k == "hash":
                    init, kk = "(make-hash-table)", "hash"
                else:
                    init, kk = self.expr(k, d - 2, src), k
                bs.append(f"({nm} {init})")
                e2 = self.bind(e2, [nm], [kk])
            return f"({'let' if o == 'let' else 'let*'} ({' '.join(bs)}) {self.body(kind, d - 1, e2)})"
        if o == "letrec":
            f, p = self.pick(NAMES), self.pick(["i", "j"])
            e1 = self.bind(env, [f, p], ["self", "int"])
            rec = f"(lambda ({p}) (if (<= {p} 0) {self.k_int(d - 2, e1)} (+ 1 ({f} (- {p} 1)))))"
            e2 = self.bind(env, [f], [("proc1s")])
            return f"(letrec (({f} {rec})) (let (({p} ({f} {self.pick('0123')}))) {self.body(kind, d - 1, self.bind(e2, [p], ['int']))}))"
        if o == "nlet":
            lp = self.pick(["loop", "lp"])
            i, acc = self.pick(["i", "j"]), self.pick(NAMES)
            e2 = self.bind(env, [i, acc], ["int", "list"])
            up = self.pick([f"(cons {i} {acc})", f"(cons {self.k_int(d - 2, e2)} {acc})"])
            lim = self.pick("0123")
            pre = self.effect(d - 2, e2) + " " if self.chance(0.4) else ""
            res = acc if kind == "list" else (f"(apply + {acc})" if kind == "int" else self.expr(kind, d - 2, e2))
            return f"(let {lp} (({i} {lim}) ({acc} '())) {pre}(if (<= {i} 0) {res} ({lp} (- {i} 1) {up})))"
        if o == "do":
            i, acc = self.pick(["i", "j"]), self.pick(NAMES)
            e2 = self.bind(env, [i, acc], ["int", "list"])
            step = f"(cons {self.k_int(d - 2, e2)} {acc})"
            body = " ".join(self.effect(d - 2, e2) for _ in range(self.pick([0, 1, 1, 2])))
            res = acc if kind == "list" else (f"(apply + {acc})" if kind == "int" else self.expr(kind, d - 2, e2))
            third = ""
            if self.chance(0.3):
                t = self.pick([n for n in NAMES if n not in (i, acc)])
                third = f" ({t} {self.k_int(d - 2, env)})"
            pre = (self.effect(d - 2, e2) + " ") if self.chance(0.2) else ""
            return f"(do (({i} 0 (+ {i} 1)) ({acc} '() {step}){third}) ((>= {i} {self.pick('0123')}) {pre}{res}) {body})"
        if o == "cond":
            cl = []
            for _ in range(self.pick([0, 1, 2])):
                c = self.r.randrange(5)
                if c == 0 and kind == "int":
                    cl.append(f"((and {self.k_bool(d - 2, env)} {self.k_int(d - 2, env)}))")
                elif c == 1 and kind == "int":
                    cl.append(f"((or {self.k_bool(d - 2, env)} #f) => (lambda (t) (begin (emit t) {self.k_int(d - 2, env)})))")
                else:
                    cl.append(f"({self.k_test(d - 1, env)} {self.effect(d - 2, env)} {X()})")
            return f"(cond {' '.join(cl)} (else {X()}))"
        if o == "case":
            return (f"(case {self.pick([self.k_int(d - 1, env), chr(39) + self.pick('stu')])} ((0 1 2) {X()}) ((s 3 #\\a) {self.effect(d - 2, env)} {X()})"
                    f" (else {X()}))")
        if o == "andor":
            if kind == "int":
                return f"(or (and {self.k_test(d - 1, env)} {X()}) {X()})"
            return f"(if (or {self.k_test(d - 1, env)} {self.k_bool(d - 1, env)}) {X()} {X()})"
        if o == "call":
            n = self.pick([0, 1, 1, 2, 3])
            f = self.proc(n, d - 1, env)
            args = " ".join(self.k_int(d - 1, env) for _ in range(n))
            c = f"({f} {args})" if self.chance(0.75) else (f"(apply {f} (list {args}))" if n == 0 or self.chance(0.5) else
                                                             f"(apply {f} {args} '())")
            return c if kind == "int" else f"(begin {c} {X()})"
        if o == "curry":
            a, b = self.names(2)
            e2 = self.bind(self.bind(env, [a], ["int"]), [b], ["int"])
            c = f"(((lambda ({a}) (lambda ({b}) {self.body('int', d - 2, e2)})) {self.k_int(d - 1, env)}) {self.k_int(d - 1, env)})"
            return c if kind == "int" else f"(begin {c} {X()})"
        if o == "innerdef":
            n = self.pick(NAMES)
            e1 = {k: v for k, v in env.items() if k != n}
            return f"(let () (define {n} {self.k_int(d - 1, e1)}) {self.body(kind, d - 1, self.bind(env, [n], ['int']))})"
        if o == "cc_escape":
            k = self.pick(["k", "esc"])
            e2 = self.bind(env, [k], [("cont", kind)])
            return f"({self.pick(['call/cc', 'call-with-current-continuation'])} (lambda ({k}) {self.body(kind, d - 1, e2)}))" \
                if self.chance(0.4) else \
                f"(call/cc (lambda ({k}) {self.effect(d - 2, env)} (if {self.k_bool(d - 2, env)} ({k} {X(d - 1)})) {X(d - 1, e2)}))"
        if o == "cc_store":
            g = self.pick(["gk1", "gk2"])
            if kind != "int":
                return X()
            return f"(call/cc (lambda (k) (set! {g} k) {X()}))"
        if o == "cc_reenter":
            g = self.pick(["gk1", "gk2"])
            ks = [n for n, kk in env.items() if kk == ("cont", kind)]
            if ks and self.chance(0.6):
                return f"({self.pick(ks)} {X()})"
            return f"(begin (if (and (procedure? {g}) (> fuel 0)) (begin (set! fuel (- fuel 1)) ({g} {self.k_int(d - 1, env)}))) {X()})"
        if o == "wind":
            b, a = self.lab(), self.lab()
            pre = f"(lambda () (emit '{b}))"
            post = f"(lambda () (emit '{a}))"
            vs = self.settable(env)
            if vs and self.chance(0.25):
                v = self.pick(vs)
                pre = f"(lambda () (emit (list '{b} {v})) (set! {v} (+ {v} 1)))"
            if vs and self.chance(0.25):
                v = self.pick(vs)
                post = f"(lambda () (emit (list '{a} {v})))"
            return f"(dynamic-wind {pre} (lambda () {self.body(kind, d - 1, env)}) {post})"
        if o == "catch":
            tag = self.pick(["#t"] + ["'" + k for k in KEYS] + ["'error"])
            key, rest = "key", "args"
            h = self.pick([f"(lambda ({key} . {rest}) (emit {key}) {X(d - 1)})",
                           f"(lambda ({key} . {rest}) (emit (list 'caught {key})) {X(d - 1)})"])
            return f"(catch {tag} (lambda () {self.body(kind, d - 1, env)}) {h})"
        if o == "throw":
            k = self.pick(KEYS)
            t = f"(throw '{k} {self.k_int(d - 1, env)})" if self.chance(0.6) else f"(throw '{k})"
            return f"(if {self.k_bool(d - 1, env)} {t} {X()})" if self.chance(0.7) else t
        if o == "err":
            e = self.pick(["(car 5)", "(undefined-thing)", "(vector-ref (vector 1 2) 2)", "((lambda (q) q))", "((lambda (q) q) 1 2)",
                           "(5 5)", "(+ 'a 1)", "(length '(1 . 2))", "(cdr '())", "(cons 1)", "(abs 'x)", "undefined-var",
                           "(apply car '(1 2))", "(\"str\")", "(vector-set! (vector) 0 1)", "(list-ref '(1) 1)", "(quotient 1 0)",
                           "(hash-ref 5 1)", "(force 5)", "(symbol->string 5)", "((lambda (q . r) q))"])
            return f"(if {self.k_bool(d - 1, env)} {e} {X()})" if self.chance(0.7) else e
        if o == "force":
            if kind != "int":
                return X()
            vs = self.vars(env, "promise")
            if vs and self.chance(0.7):
                return f"(force {self.pick(vs)})"
            p = self.pick(["p", "q"])
            e2 = self.bind(env, [p], ["promise"])
            return f"(let (({p} (delay {self.k_int(d - 1, env)}))) {self.body('int', d - 1, e2)})"
        if o == "values":
            return self.values_expr(d, env, kind)
        if o == "macro":
            ms = [n for n, k in self.globals.items() if k == "macro"]
            if not ms or kind != "int":
                return X()
            return f"({self.pick(ms)} {self.k_int(d - 1, env)} {self.k_int(d - 1, env)})"
        return self.expr(kind, d - 1, env)

    def values_expr(self, d, env, kind):
        n = self.pick([0, 1, 2, 3])
        ns = self.names(n)
        e2 = self.bind(env, ns, ["int"] * n)
        vals = " ".join(self.k_int(d - 1, env) for _ in range(n))
        c = self.r.randrange(4)
        if c == 0:
            prod = f"(lambda () (values {vals}))"
        elif c == 1:
            prod = f"(lambda () (call/cc (lambda (k) (k {vals}))))"
        elif c == 2:
            prod = f"(lambda () (apply values (list {vals})))"
        else:
            prod = f"(lambda () {self.effect(d - 2, env)} (if {self.k_bool(d - 2, env)} (values {vals}) (values {vals})))"
        recv = "list" if kind == "list" and self.chance(0.5) else f"(lambda ({' '.join(ns)}) {self.body(kind, d - 1, e2)})"
        return f"(call-with-values {prod} {recv})"

    def quasi(self, d, env, depth=1):
        def item(dd):
            c = self.r.randrange(8)
            if c == 0:
                return f",{self.k_int(d - 1, env)}" if self.chance(0.5) else f",(emit {self.k_int(d - 1, env)})"
            if c == 1:
                return f",@{self.k_list(d - 1, env)}" if depth == 1 else "u"
            if c == 2:
                return f",{self.k_list(d - 1, env)}"
            if c == 3 and dd > 0:
                return "(" + " ".join(item(dd - 1) for _ in range(self.r.randrange(3))) + ")"
            if c == 4 and dd > 0:
                return "#(" + " ".join(item(dd - 1) for _ in range(self.r.randrange(3))) + ")"
            if c == 5 and dd > 0:
                return f"({item(0)} . ,{self.k_int(d - 1, env)})"
            return self.pick(["s", "1", "()", '"q"', "(m n)", "#t"])
        return "`(" + " ".join(item(2) for _ in range(self.r.randrange(1, 5))) + ")"

    # -- programs
    def program(self, nforms=5, depth=4):
        out = ["(define fuel 3)", "(define gk1 #f)", "(define gk2 #f)"]
        env = {}
        if self.w["macro"]:
            out.append("(define-macro (my-or p q) (list 'let (list (list 'mtmp p)) (list 'if 'mtmp 'mtmp q)))")
            out.append("(define-macro (twice p q) `(begin (emit ',p) (+ ,p ,p ,q)))")
            out.append("(define-macro (pick . ops) (cadr ops))")
            self.globals = {"my-or": "macro", "twice": "macro", "pick": "macro"}
        for _ in range(nforms):
            c = self.r.randrange(10)
            if c < 2:
                n = self.pick(NAMES)
                k = self.pick(["int", "list"])
                out.append(f"(define {n} {self.expr(k, depth - 1, {x: y for x, y in env.items()})})")
                # an error in the form leaves the name as it was: only names already of the kind, or guarded
                env = self.bind(env, [n], [k]) if not self.unsafe() else self.drop(env, n)
            elif c < 4:
                f = self.pick(NAMES)
                np = self.pick([0, 1, 2])
                ps = self.names(np)
                e2 = self.bind({x: y for x, y in env.items() if x != f}, ps, ["int"] * np)
                out.append(f"(define ({f} {' '.join(ps)}) {self.body('int', depth - 1, e2)})")
                env = self.bind(env, [f], [("proc", np)])
            else:
                k = self.pick(["int", "int", "list", "any"])
                e = self.expr(k, depth, env)
                out.append(f"(emit {e})")
        return "\n".join(out) + "\n"

    def unsafe(self):
        return self.w["throw"] or self.w["err"] or self.w["cc_reenter"]

    def drop(self, env, n):
        e = dict(env)
        e.pop(n, None)
        return e


def programs(rng, count, nforms=5, depth=4, **weights):
    out = []
    while len(out) < count:
        t = Gen(rng, **weights).program(nforms, depth)
        if len(t) < 4000:
            out.append(t)
    return out
