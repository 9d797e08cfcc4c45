"""C18: the reader and the printer (Reader.tla)."""
import paths

PRE = """(define (read-all p) (let lp ((l '())) (let ((d (read p))) (if (eof-object? d) (reverse l) (lp (cons d l))))))
(define %l #f)
(define (to-file name . parts) (let ((o (open-output-file name))) (for-each (lambda (t) (display t o)) parts) (close-output-port o)))
(define (from-file name) (let* ((i (open-input-file name)) (l (read-all i))) (close-input-port i) l))
(define (from-program text) (catch #t (lambda () (to-file "p.txt" "(set! %l '(" text (string #\\newline) "))") (load "p.txt") %l) (lambda (k . r) 'bad)))
(define (written sep l) (let ((o (open-output-string))) (for-each (lambda (d) (write d o) (display sep o)) l) (get-output-string o)))
(define (rd text)
  (let ((l (read-all (open-input-string text))))
    (to-file "t.txt" text)
    (to-file "w.txt" (written " " l))
    (list l (from-file "t.txt") (from-program text) (from-file "w.txt") (car (read-all (open-input-string (written "" (list l))))))))
(define (read-bad p) (let lp ((l '()) (n 0)) (let ((d (catch #t (lambda () (list (read p))) (lambda k 'bad)))) (if (eq? d 'bad) (reverse l) (if (or (> n 60) (eof-object? (car d))) (reverse (cons 'no-error l)) (lp (cons (car d) l) (+ n 1)))))))
(define (rd-bad text) (to-file "t.txt" text) (list (read-bad (open-input-string text)) (let* ((i (open-input-file "t.txt")) (l (read-bad i))) (close-input-port i) l) (from-program text)))
"""


def show_chars(s):
    return "".join("\\" + c if c in '"\\' else c if 32 <= ord(c) <= 126 else "\\x%02x" % ord(c) for c in s)


def esc(s):
    """A text as part of a string literal."""
    return "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(c) or (c if 32 <= ord(c) <= 126 else "\\%03o" % ord(c)) for c in s)


def atoms(r, deep):
    out = []

    def at(shown, spelled, cls="a"):
        out.append((shown, spelled, esc(spelled), cls))
    for n in [0, 7, -5, 12, 2147483648, -2147483649, 9223372036854775807, -9223372036854775808, r.randrange(-10 ** 18, 10 ** 18)]:
        at(str(n), str(n))
        if n >= 0:
            at(str(n), f"+{n}")
        at(str(n), ("-" if n < 0 else "") + "000" + str(abs(n)))
    at("0", "-0")
    for n, d in [(1, 2), (-3, 4), (22, 7), (r.randrange(1, 10 ** 9) * 2 + 1, 2)]:
        at(f"{n}/{d}", f"{n}/{d}")
        at(f"{n}/{d}", f"{n * 3}/{d * 3}")
    at("2", "4/2")
    at("-2", "-4/2")
    at("0", "0/5")
    for x in [1.5, -0.25, 1000.0]:
        at("~%.17g" % x, repr(x))
        at("~%.17g" % x, "%.3e" % x)
    at("~5", "5.")
    for b in "tf":
        at("#" + b, "#" + b)
    # characters
    cs = [97, 90, 48, 40, 41, 59, 34, 39, 35, 92, 46, 44, 96, 123, 1, 127, 128, 255, 11] + ([] if not deep else list(range(1, 256)))
    for c in sorted(set(cs) - {0, 10, 32, 9}):
        at(f"#\\{c}", f"#\\{chr(c)}", "w" if c in (11, 12, 13) else "a")
    for name, c in [("space", 32), ("SPACE", 32), ("newline", 10), ("NewLine", 10), ("tab", 9), ("ht", 9), ("Ht", 9), ("nul", 0), ("s", 115), (" ", 32), ("\n", 10), ("\t", 9)]:
        at(f"#\\{c}", f"#\\{name}", "w" if name.isspace() else "a")
    # symbols
    for s in ["a", "abc", "Hello", "x1", "+", "-", "...", "1+", "-1+", "->x", "a->b", "!$%&*/:<=>?^_~", "a.b", ".5a", "quote", "quasiquote", "unquote", "unquote-splicing", "list?", "set!", "12abc", "1.5.6", "1/", "+a", "-.", "if", "a|b", "..", "else", "=>"]:
        at(s, s)
    at("abc", "#{abc}#")
    at("abc", "a\\bc")
    at("A", "\\A")
    # strings
    strs = ["", "a", "hello world", "a\nb", "\t\r", 'say "hi"', "back\\slash", "semi;colon", "(", ")", "'", "#\\a", "\\n", "1", "\x01", "\xff", "\x00", "a\x00b", "\x1b[0m", "0\x07" + "7"]
    if deep:
        strs += [chr(c) + r.choice("07ax\\n\"") for c in range(256)]
    for s in strs:
        at('"' + show_chars(s) + '"', '"' + "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(c) or (c if 32 <= ord(c) <= 126 else "\\%03o" % ord(c)) for c in s) + '"', "s")
        if "\x00" not in s and "\r" not in s:
            at('"' + show_chars(s) + '"', '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"', "s")
    at('"q;x(8"', '"\\q\\;x\\(\\8"', "s")
    at('"a\\x0ab"', '"a\\n\\b"', "s")
    return out


BLANKS = [" ", "\n", "\t", "  ", "\r\n", "\f", "; comment\n", ";\n", ";; (unclosed ' \" #( #\\\n", ";\"\n"]
BADS = ["#\\bogus", "#\\spaces", "(a . )", "(a .)", "(. a)", "(a . b c)", "(a . b . c)", "#(a . b)", "(')", "#(')", "(` )", "(a ,)", "(,@)", "#q", "#true", "1/0", "99999999999999999999", "-9223372036854775809", "(#\\ab)", "('1 . 2 3)", "#(#)", "(a #)"]


def tla(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r").replace("\f", "\\f") + '"'


def table(rows):
    return "{" + ", ".join("<<" + ", ".join(tla(x) for x in row) + ">>" for row in rows) + "}"


def C18(ctx):
    r = ctx.rng
    al = [a for a in atoms(r, not ctx.quick) if all(ord(c) < 127 and (ord(c) >= 32 or c in "\n\t\r\f") for c in a[1])]
    # a literal raw byte in the program is written there as it is, TLC's texts are ASCII
    every = ["atom", "open", "close", "prefix", "dot", "bad", "constant"]
    few = [a for a in al if a[1] in ("a", "1", '"a"', "#\\a", "#t")]

    def c(ats, blanks, bads, kinds, maxtok, maxlen, sim=False):
        return dict(Atoms=table(ats), Blanks=table([(b, esc(b)) for b in blanks]), Bads=table([(b, esc(b)) for b in bads]), Kinds="<<" + ", ".join(f'"{k}"' for k in kinds) + ">>", MaxTok=maxtok, MaxLen=maxlen,
                    Sim="TRUE" if sim else "FALSE")
    one = [a for a in few if a[1] == "a"]
    r.shuffle(al)
    half = al if not ctx.quick else al[:len(al) // 2 + 1]
    jobs = [(("Reader", c(one, [" "], ["#\\bogus"], every, 4 if ctx.quick else 5, 9), ["Inv"], ["Mono"]), {}),
            (("Reader", c(one, ["\n"], ["(. a)"], ["atom", "open", "close", "dot", "constant"], 5 if ctx.quick else 6, 9), ["Inv"], []), {}),
            # every atom and blank, alone and after another
            (("Reader", c(al, BLANKS, BADS, ["atom", "constant"], 1, 9), ["Inv"], []), {}),
            (("Reader", c(few, BLANKS, [], ["atom", "open", "prefix"], 2, 9), ["Inv"], []), {}),
            (("Reader", c(few, ["\n"], BADS, ["atom", "open", "prefix", "dot", "bad"], 2, 9), ["Inv"], []), {}),
            (("Reader", c(half, [" "], [], ["atom"], 2, 9), ["Inv"], []), {})]
    nb = len(jobs)
    n = 30 if ctx.quick else 900
    for q in range(8):
        ks = every + [["open", "close"], ["close", "close"], ["prefix", "close"], ["dot", "open", "close"], ["atom", "open", "close"], ["open", "close", "close", "dot"], ["prefix", "prefix"], ["bad"]][q]
        jobs.append((("Reader", c(al, BLANKS, BADS, ks, [30, 60, 20, 40, 80, 30, 25, 10][q], 0, sim=True), ["Inv"], []), dict(sim=(n, 60), seed=ctx.seed * 101 + q)))
    res = paths.explore_many(ctx, jobs)
    for k, ps in enumerate(res[:nb]):
        paths.replay(ctx, ps, PRE, gcs=(0,), files={"none": ""}, limit=(3000 if k == 2 else 1200) if ctx.quick else 40000)
    paths.replay(ctx, sum(res[nb:], []), PRE, gcs=(0, 307), files={"none": ""})
    ctx.assumptions.append("floating point numbers are read as claimed, but write does not print all their digits; symbols with characters of other tokens, keywords and circular data are not claimed")
