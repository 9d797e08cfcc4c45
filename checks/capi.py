"""C21: the C interface, called by a C program and from Scheme."""
import paths

PRELUDE = """(define x 'x0)
(define y 'y0)
(define (p a) (set! x a) (list 'p a y))
(define (q a b) (list 'q a b))
(define (r . l) (cons 'r l))
(define (long n) (make-string n #\\z))
(resolve-module '(m))"""
LITS = [("5", "5", "self"), ("'u", "u", "err"), ("'(car '())", "(car (quote ()))", "err"), ('"s"', '"s"', "self"), ("#f", "#f", "self"), ("'(throw 'k1)", "(throw (quote k1))", "k1"),
        ("'x", "x", "x"), ("'()", "()", "self")]
THROWS = [("", "", "#f"), ("1", "1", "#f"), ('"m"', '"m"', '"m"'), ("'u \"m2\" 3", 'u "m2" 3', '"m2"'), ('1 2 "no"', '1 2 "no"', "#f")]
LONG = [(f"(long {n}) 2", f'"{"z" * n}" 2', f'"{"z" * n}"') for n in range(996, 1300, 16)]
KINDS = ["lit", "ref", "ref", "err", "unbound", "thr", "cthr", "look", "mlook", "cur", "disp", "set", "def", "def", "cdef", "cmdef", "list", "note", "note", "wind", "thunk", "scatch", "ccatch", "ccatch", "esc", "esc",
         "out", "out", "out", "pcall", "pcall", "gcall", "ceval", "ceval", "ceval", "cevs", "cin", "cin", "output", "cmsg"]
TOPS = ["look", "mlook", "cur", "cthr", "cdef", "cmdef", "note", "pcall", "gcall", "ccatch", "ceval", "cevs", "cin", "output", "gsubr", "worker", "enter", "handler", "module", "parse", "text", "end", "cmsg"]
BIG = ["ceval", "ceval", "cevs", "cin", "ccatch", "output"] * 3


def triples(l):
    return "{" + ", ".join("<<" + ", ".join(paths.tla_str(x) for x in v) + ">>" for v in l) + "}"


def seq(l):
    return "<<" + ", ".join(f'"{x}"' for x in l) + ">>"


def c(kinds, tops, depth, length, lits=None, throws=None, sim=False):
    return dict(Kinds=seq(kinds), Tops=seq(tops), Lits=triples(lits or LITS), Throws=triples(throws or THROWS), Depth=str(depth), MaxLen=str(length), Sim="TRUE" if sim else "FALSE")


def C21(ctx):
    q = ctx.quick
    few, one = LITS[:1] + LITS[2:3], THROWS[3:4]
    jobs = []

    def bfs(kinds, tops, depth, length, lits=few, throws=one):
        jobs.append((("Capi", c(kinds, tops, depth, length, lits, throws), ["Inv"], ["Stays"]), {}))
    # variables and modules
    bfs(["lit", "ref", "def", "set"], ["look", "mlook", "cdef", "cmdef", "enter", "ceval", "module"], 2, 2 if q else 3, lits=LITS[:1] + LITS[1:2])
    # functions and their arguments
    bfs(["lit"], ["gsubr", "worker", "gcall", "enter"], 1, 3 if q else 4, lits=few)
    bfs(["lit", "gcall"], ["worker", "ceval", "pcall", "gsubr"], 2, 2, lits=LITS)
    # errors
    bfs(["lit", "err", "thr", "cthr", "ccatch", "scatch", "note", "wind", "ceval"], ["ceval", "ccatch"], 3, 2)
    bfs(["lit", "err", "thr", "ccatch", "ceval"], ["ceval", "ccatch", "handler"], 2, 2)
    bfs(["lit", "err", "thr", "def", "ref"], ["cevs", "look", "handler"], 2, 2)
    bfs(["lit", "err", "cin", "cur", "thr", "ccatch", "def"], ["cin", "cur", "ceval", "ccatch", "look"], 2 if q else 3, 2)
    bfs(["lit", "err", "thr", "cthr", "cmsg", "ccatch", "disp"], ["cmsg", "end"], 2, 2, throws=THROWS + LONG)
    # leaving C calls through a continuation
    bfs(["lit", "esc", "out", "thunk", "ccatch", "cin", "wind", "cur"], ["ceval"], 4, 2, lits=LITS[:1])
    bfs(["disp", "err", "lit", "esc", "out"], ["output", "ceval"], 3, 2, lits=LITS[:2])
    nb = len(jobs)
    n = 300 if q else 4000
    for k in range(8):
        kinds = KINDS + [[], ["gcall", "pcall"] * 6, ["err", "thr", "cthr", "ccatch"] * 3, ["esc", "out", "out", "out"] * 4, ["cin", "def", "set", "cdef", "ref"] * 4, ["cevs", "ceval", "note"] * 4, ["wind", "ccatch", "out", "cin"] * 4, []][k]
        tops = TOPS + [BIG, ["gsubr", "worker", "gcall", "gcall"] * 4 + BIG, BIG + ["handler"] * 3, BIG * 2, ["enter", "look", "mlook", "cin"] * 3 + BIG, BIG * 2, BIG * 2, []][k]
        jobs.append((("Capi", c(kinds, tops, 3 + k % 3, 0, sim=True), ["Inv"], []), dict(sim=(n, 25), seed=ctx.seed * 97 + k)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:nb]:
        paths.replay(ctx, ps, PRELUDE, gcs=(0, 53), limit=1200 if q else 40000)
    paths.replay(ctx, sum(res[nb:], []), PRELUDE, gcs=(0, 101))
    ctx.assumptions.append("not claimed: optional arguments that are left out (a function registered with optional or rest arguments gets the list of all), the texts of messages, variable-set! on a looked up variable, "
                           "lazy catches, continuations reentered after a C call returned")
