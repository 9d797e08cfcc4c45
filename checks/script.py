"""C24, C29: scripts, the command line and the interactive loop, on the real command."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import tempfile

import paths
import run

VALUES = [("5", "5", "5"), ("'sym", "sym", "sym"), ('"text"', '"text"', "text"), ('"a\\"b\\\\c"', '"a\\"b\\\\c"', 'a"b\\c'), ('""', '""', ""),
          ("#\\a", "#\\a", "a"), ("#t", "#t", "#t"), ("#f", "#f", "#f"), ("'()", "()", "()"), ("(list 1~\"a\" #\\b)", '(1 "a" #\\b)', None), ("'(1 (2 . 3)~. 4)", "(1 (2 . 3) . 4)", "(1 (2 . 3) . 4)"),
          ("(vector 1~'(x))", "#(1 (x))", "#(1 (x))"), ("1.5", "1.5", "1.5"), ("-7", "-7", "-7"), ("(string #\\a~#\\b)", '"ab"', "ab"), ("(let ((a 1)~(b 2))~(+ a b))", "3", "3"),
          ("'(quote z)", "(quote z)", "(quote z)"), ("(call/cc (lambda (e)~(+ 1 (e 42))))", "42", "42"), ("(catch #t~(lambda () (throw 'a 1))~(lambda (k . r) (cons k r)))", "(a 1)", "(a 1)"),
          ("(do ((i 0 (+ i 1)))~((= i 5)~i))", "5", "5"), ('"; not a comment ("', '"; not a comment ("', "; not a comment ("), ("#\\(", "#\\(", "("), ("#\\;", "#\\;", ";"), ('#\\"', '#\\"', '"')]
ERRORS = ["(car '())", "(exit 'a)", "(exit~\"1\")", "(throw 'boom~1 2)", "nowhere", "(vector-ref (vector 1)~5)", "(+ 1~'a)", "(3 4)", "((lambda (x) x))", "(let ((1)) 2)", "(load \"no-such-file.scm\")", "(load \"broken.scm\")",
          "(car (display \"part\"))"][:-1]
BADS = [")", "(1 . )", "#\\nosuchname", "(car '(1)))", "#(1 2", "(a . b c)", "1 2 )", "(display 1) ]"][:4]
NOTHINGS = ["(if #f #f)", "(if~(> x 1000)~5)", "(vector-set! (vector 1 2)~0 5)", "(set-car! (list 1) 2)", "(set-cdr! (list 1)~'(2))", "(string-set! (string #\\a) 0~#\\b)", "(display 1~(open-output-string))",
            "(write 'a (open-output-string))", "(newline~(open-output-string))", "(write-char #\\a (open-output-string))", "(force-output)", "(force-output (open-output-string))", "(close-output-port (open-output-string))",
            "(close-input-port~(open-input-string \"a\"))", "(for-each car '())", "(for-each list '(1 2))", "(variable-set! (make-variable 1) 2)", "(do ((i 0 (+ i 1)))~((= i 2)))", "(cond (#f 1))", "(display \"\")",
            "(vector-set! (make-vector 3 0) 2 '())"]
EXITS = {f"exit{n}.scm": f"(display \"bye\")\n(exit{' ' if n else ''}{n})\n(display \"never\")\n" for n in ("", "0", "1", "7", "255", "7.0", "-1")}
ALL = ["val", "ref", "inc", "def", "put", "display", "write", "show", "newline", "nothing", "error", "seq", "catch", "wind", "if", "jump", "load", "cap", "exit"]
LONG = [0, 4093, 4094, 4095, 4096, 4097, 0, 8189, 8190, 8191, 8192, 100, 12285, 20000]
SEPS = {"nl": "\n", "sp": " ", "cm": " ; a comment ( \" '\n", "crlf": "\r\n", "split": "\n", "tab": "\t\n\n  \n", "glue": ""}


def strs(l):
    return "{" + ", ".join(paths.tla_str(x) for x in l) + "}"


def values(vs):
    return "{" + ", ".join("<<" + ", ".join(paths.tla_str(x) for x in v) + ">>" for v in vs) + "}"


def layout(i, path, loop):
    """What a path says: the script, the files it loads, the output (for the loop, a pattern) and the status."""
    files = dict(EXITS)
    text = "(define x 0) (define y 3)\n(define k #f)\n"
    want = "pscm> " + "[^\n]*\n --> [^\n]*\n" * 2 + "pscm> [^\n]*\n --> [^\n]*\npscm> "
    if i % 4 == 1:
        text, want = "\n; first (\n" + text, "pscm> pscm> " + want
    pending, status, nf = [], None, 0

    def flush():
        nonlocal pending, want, status
        for out in pending:
            if status is not None:
                break
            if out is None:
                continue
            if "^" in out:
                out, _, st = out.partition("^")
                status = int(st)
            # the loop repeats the form in some way first
            want += ("[^\n]*\n" if loop else "") + "[^\n]*".join(re.escape(x) for x in out.split("%")) if loop else out
        pending = []

    def prompt(p):
        nonlocal want
        if loop and status is None:
            want += re.escape(p)

    if not loop:
        want = ""
    for k, (op, out) in enumerate(path):
        lay, _, form = op.partition(":")
        if lay == "file":
            nf += 1
            files[f"f{nf}.scm"] = form.replace("~", "\n" if nf % 2 else " ") + ("\n" if nf % 2 else "")
            continue
        if lay == "bad":
            text += "\n" + form + "\n"
            flush()
            prompt("pscm> ")
            prompt("pscm> ")
            continue
        form = form.replace("~", "\n" if lay == "split" else " ")
        if i % 5 == 2:
            # lines longer than a buffer
            width = LONG[(i // 5 + k) % len(LONG)]
            first = len(text) - text.rfind("\n") - 1 + len(form.split("\n")[0])
            text += " " * max(0, width - first)
        sep = " " if lay == "glue" and not form.endswith(")") else SEPS[lay]
        if i % 3 == 0 and k == len(path) - 1:
            sep = ""
        text += form + sep
        for _ in range(form.count("\n")):
            prompt("  ...> ")
        pending.append(out)
        for _ in range(sep.count("\n")):
            flush()
            prompt("pscm> ")
    if pending:
        flush()
        prompt("pscm> ")
    if loop and status is None:
        want += "\n"
    return text, files, want, status or 0


def command(ctx, args, cwd, stdin=False, timeout=20):
    e = dict(os.environ, LC_ALL="C.UTF-8")
    try:
        with open(os.path.join(cwd, "in") if stdin else os.devnull) as i, tempfile.TemporaryFile(dir=ctx.scratch) as o:
            # output without end is cut
            r = subprocess.run(["prlimit", "--fsize=4194304", ctx.bin["cli"]] + list(args), cwd=cwd, stdin=i, stdout=o, stderr=subprocess.DEVNULL, timeout=timeout, env=e)
            o.seek(0)
            return o.read().decode("utf-8", "replace"), r.returncode
    except subprocess.TimeoutExpired:
        return "", "no end"


def one(ctx, i, path, loop):
    """None if the run is the path's."""
    d = tempfile.mkdtemp(prefix="script-", dir=ctx.scratch)
    try:
        text, files, want, status = layout(i, path, loop)
        files.update({"broken.scm": "(display \"never\") (car '(1)\n", "script.scm": text, "in": text})
        for n, t in files.items():
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(t)
        args = [] if loop else [["script.scm"], ["--test", "script.scm"], ["-s", "script.scm"]][i % 3]
        got, st = command(ctx, args, d, stdin=loop)
        if st == status and (re.fullmatch(want, got) if loop else got == want):
            return None
        return (f"expected status {status} and output{' (a pattern)' if loop else ''}\n{want}\nobserved status {st} and output\n{got}\n", text, files)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def runs(ctx, ps, loop, limit=None):
    ps = paths.maximal(ps)
    total = len(ps)
    if limit and total > limit:
        ps = sorted(ctx.rng.sample(ps, limit))
    ctx.count(scripts_enumerated=total, scripts_run=len(ps), forms=sum(len(p) for p in ps))
    ctx.bin
    endless = []

    def attempt(a):
        if len(endless) > 20:
            return "skipped"
        r = one(ctx, a[0], a[1], loop)
        if r and "status no end" in r[0]:
            endless.append(r)
        return r
    with concurrent.futures.ThreadPoolExecutor(run.WORKERS) as ex:
        res = list(ex.map(attempt, enumerate(ps)))
    for i, (p, r) in enumerate(zip(ps, res)):
        if r == "skipped" and ctx.violations:
            continue
        if r is not None and not (len(ctx.violations) >= 5):
            r = one(ctx, i, p, loop)
        if r is None:
            ctx.traces += 1
            continue
        if len(ctx.violations) >= 5:
            ctx.violations.append(None)
            continue
        what, text, files = r
        ctx.violation("the output of the command is not that of the specification", what + "\n\nscript:\n" + text + "\nfiles:\n" + "\n".join(f"{n}: {t!r}" for n, t in files.items() if n not in ("in", "script.scm")))
    for p in ps[:2] + ps[-1:]:
        ctx.sample({"path": [list(x) for x in p[:12]]})


def c(values_, errors, kinds, layouts, depth, nfile, length, loop=False, sim=False):
    vs = [(a, b, b if d is None else d) for a, b, d in values_]
    return dict(Values=values(vs), Errors=strs(errors), Bads=strs(BADS), Nothings=strs(NOTHINGS), Kinds="<<" + ", ".join(f'"{k}"' for k in kinds) + ">>", Layouts=strs(layouts), Depth=str(depth), NFile=str(nfile), MaxLen=str(length), Repl="TRUE" if loop else "FALSE", Sim="TRUE" if sim else "FALSE")


def families(ctx, loop, layouts):
    q = ctx.quick
    bad = ["bad"] if loop else []
    v1, e1 = VALUES[2:3], ERRORS[:1]
    jobs = [(("Script", c(v1, e1, ["val", "inc", "display", "error", "jump", "cap", "exit"] + bad, ["nl"], 1, 0, 3, loop), ["Inv"], ["Mono"]), {}),
            (("Script", c(v1, e1, ["show", "error", "seq", "catch", "wind", "jump", "cap"] + (["inc"] if not q else []), ["nl"], 2, 0, 2, loop), ["Inv"], []), {}),
            (("Script", c(v1, e1, ["val", "newline", "error", "load", "catch"], ["nl"], 2, 1, 2 if q else 3, loop), ["Inv"], []), {}),
            (("Script", c(VALUES, ERRORS, ["val", "display", "write", "nothing", "error", "def"] + bad, ["nl"], 1, 0, 1 if q else 2, loop), ["Inv"], []), {}),
            (("Script", c(VALUES[:1], ERRORS, ["nothing", "val"], ["nl"], 0, 0, 2, loop), ["Inv"], []), {}),
            (("Script", c(v1, e1, ["val", "display", "error"] + bad, layouts, 1, 0, 2 if q else 3, loop), ["Inv"], []), {})]
    nb = len(jobs)
    n = 150 if q else 2500
    for k in range(6):
        kinds = ALL + bad * 2 + [["cap", "jump"] * 6, ["load", "seq", "catch"] * 3, ["exit"], ["error"] * 5, ["seq", "wind", "if"] * 3, ["cap", "jump", "load", "inc"] * 3][k]
        if k != 2:
            kinds = [x for x in kinds if x != "exit"] if k % 2 else kinds
        jobs.append((("Script", c(VALUES, ERRORS, kinds, layouts, 3, 2, 0, loop, sim=True), ["Inv"], []), dict(sim=(n, 25), seed=ctx.seed * 71 + k)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:nb]:
        runs(ctx, ps, loop, limit=1500 if q else 30000)
    runs(ctx, sum(res[nb:], []), loop)


def C24(ctx):
    families(ctx, False, ["nl", "sp", "cm", "crlf", "split", "tab", "glue"])
    good = ["a.scm", "--test"]
    ps = paths.explore(ctx, "Command", dict(Good=strs(good[:1] + ["-x"]), Broken=strs(["none.scm", "broken.scm", "broken2.scm"]), MaxLen="4" if ctx.quick else "5"), ["Inv"], ["Mono"])
    texts = {"a.scm": "(display \"here\")\n'a\n", "-x": "'x\n", "broken.scm": "(display \"here\")\n(car '(1)\n", "broken2.scm": "1\n(display \"here\"))\n"}
    out = {"run a.scm": "herea\n", "run -x": "x\n"}
    d = tempfile.mkdtemp(prefix="args-", dir=ctx.scratch)
    for n, t in texts.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    ps = sorted(set(ps))
    with concurrent.futures.ThreadPoolExecutor(run.WORKERS) as ex:
        res = list(ex.map(lambda p: command(ctx, [a for a, _ in p], d), ps))
    ctx.count(command_lines=len(ps))
    for p, (got, st) in zip(ps, res):
        o = p[-1][1]
        ok = (st == 0 and got == out[o]) if o in out else st == 0 if o == "help" else (isinstance(st, int) and 0 < st < 128)
        if ok:
            ctx.traces += 1
        elif len(ctx.violations) < 5:
            ctx.violation("the command line does not do what the specification says", f"arguments {[a for a, _ in p]}: expected {o}; observed status {st} and output\n{got}")
    got, st = command(ctx, [], d)
    if st != 0:
        ctx.violation("the interactive loop without input", f"status {st}")
    shutil.rmtree(d, ignore_errors=True)
    ctx.assumptions.append("whether the guards of dynamic-wind run at exit, other arguments of exit than integers, what goes to standard error, --debug and -v are not claimed; a script is read as a whole before it runs")


def C29(ctx):
    families(ctx, True, ["nl", "sp", "cm", "split", "tab", "glue"])
    ctx.assumptions.append("how the loop echoes an expression (one line), and what it prints for an error or no value, are not claimed; an expression ends where its parentheses and strings are closed")
