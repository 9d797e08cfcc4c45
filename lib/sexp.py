"""Scheme text <-> the trees Machine.tla evaluates (as JSON)."""
import re

TOKEN = re.compile(r"""\s*(?:;[^\n]*\n\s*)*(,@|[()'`,]|\#\(|"(?:[^"\\]|\\.)*"|\#\\(?:[a-z]+|.)|[^\s()"';`,]+)""")
CHARS = {"space": 32, "newline": 10, "tab": 9, "nul": 0}


def tokens(text):
    pos, out = 0, []
    text = text.rstrip()
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            if not text[pos:].strip() or text[pos:].lstrip().startswith(";"):
                break
            raise ValueError("cannot read: " + text[pos:pos + 40])
        out.append(m.group(1))
        pos = m.end()
    return out


def parse(text):
    toks = tokens(text)
    i, out = 0, []
    while i < len(toks):
        t, i = _read(toks, i)
        out.append(t)
    return out


QUOTES = {"'": "quote", "`": "quasiquote", ",": "unquote", ",@": "unquote-splicing"}


def _read(toks, i):
    t = toks[i]
    if t in QUOTES:
        d, i = _read(toks, i + 1)
        return ["l", [["s", QUOTES[t]], d]], i
    if t in ("(", "#("):
        items, i = [], i + 1
        tail = None
        while toks[i] != ")":
            if toks[i] == ".":
                tail, i = _read(toks, i + 1)
                continue
            d, i = _read(toks, i)
            items.append(d)
        i += 1
        if t == "#(":
            return ["v", items], i
        if tail is not None:
            if tail[0] == "l":
                return ["l", items + tail[1]], i
            if tail[0] == "d":
                return ["d", items + tail[1], tail[2]], i
            return ["d", items, tail], i
        return ["l", items], i
    if t == ")":
        raise ValueError("unexpected )")
    return atom(t), i + 1


def atom(t):
    if re.fullmatch(r"-?\d+", t):
        return ["n", int(t)]
    if t in ("#t", "#f"):
        return ["b", t == "#t"]
    if t.startswith('"'):
        s = t[1:-1]
        if "\\" in s:
            raise ValueError("no escapes in machine programs: " + t)
        return ["str", s]
    if t.startswith("#\\"):
        n = t[2:]
        return ["c", CHARS[n] if n in CHARS else ord(n)]
    return ["s", t]


def show(t):
    k = t[0]
    if k == "n":
        return str(t[1])
    if k == "s":
        return t[1]
    if k == "b":
        return "#t" if t[1] else "#f"
    if k == "str":
        return '"' + t[1] + '"'
    if k == "c":
        return "#\\" + {32: "space", 10: "newline"}.get(t[1], chr(t[1]))
    if k == "l":
        return "(" + " ".join(map(show, t[1])) + ")"
    if k == "d":
        return "(" + " ".join(map(show, t[1])) + " . " + show(t[2]) + ")"
    if k == "v":
        return "#(" + " ".join(map(show, t[1])) + ")"
    raise ValueError(k)
