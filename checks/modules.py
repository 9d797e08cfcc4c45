"""C14: modules on the real interpreter."""
import re

import paths

PRELUDE = """(define %loads '())
(define %k #f)
(define %leave #f)
(define %scratch (resolve-module '(scratch)))
(set-module-binder! %scratch (lambda (mod sym def) (cond ((eq? sym 'thrown) (throw 'out)) ((eq? sym 'jumped) (%leave 'jumped)) ((eq? sym 'failed) (vector-ref (vector) 0)) ((eq? sym 'given) 78) (else #f))))
(define (%names %m) (let ((l (module-map (lambda (k v) k) %m))) (map (lambda (n) (if (memq n l) n '-)) '(x y p q m))))"""
FILES = {"a": "a.scm", "b": "lib/b.scm", "c": "lib/sub/c.scm"}
FKINDS = ["def", "pub", "code", "pcode"] * 3 + ["export", "re-export", "use", "use"] * 2 + ["copy", "set"]
KINDS = ["def", "def", "pub", "code", "pcode", "copy", "export", "re-export", "use", "use2", "set", "mod", "read", "read", "call", "call", "callin", "ref", "bound", "names", "exports", "iface", "switch", "root",
         "current", "muse", "binder", "capture", "jump", "loads", "leave"]


def seq(l):
    return "<<" + ", ".join(f'"{x}"' for x in l) + ">>"


def sset(l):
    return "{" + ", ".join(f'"{x}"' for x in l) + "}"


def c(filemods, mods, fkinds, flen, kinds, length, data="x", names="x", few="a", sim=False):
    return dict(FileMods=seq(filemods), Mods=sset(mods), FKinds=seq(fkinds), FLen=str(flen), Kinds=seq(kinds), MaxLen=str(length + len(filemods)),
                Few=f"[data |-> {sset(data)}, names |-> {sset(names)}, mods |-> {sset(few)}]", Sim="TRUE" if sim else "FALSE")


def split(path):
    """The program's steps and the files of its modules."""
    files, rest = {}, []
    for op, out in path:
        if op.startswith("file:"):
            _, m, text = op.split(":", 2)
            files[FILES[m]] = text + "\n"
        else:
            rest.append((op, out))
    return tuple(rest), files


# other names: each begins as another one does
OTHER = {"x": "v1-a", "y": "v", "p": "v1", "q": "v1-", "m": "v1-ab"}


def renamed(text):
    return re.sub(r"(?<![\w%:.#-])[xypqm](?![\w%-])", lambda t: OTHER[t.group()], text)


def rename(path):
    return tuple((renamed(op), renamed(out) if isinstance(out, str) else out) for op, out in path)


PATHS = ["m.scm", "d1/m.scm", "lib/n.scm", "d2/m.scm", "d1/lib/n.scm", "d2/lib/n.scm", "d2/d1/m.scm", "d2/e/m.scm", "d2/e/lib/n.scm"]
ENTRIES = ["", ".", "./", "d1", "d1/", "./d1", "d2", "d2/", "d2/e", "absent", "lib"]


def lp(paths_, entries, acts, ops, length, sim=False):
    return dict(FileActs=sset(acts), Paths=seq(paths_), Entries=sset(entries), Ops=seq(ops), NFiles=str(len(paths_)), MaxLen=str(length), Sim="TRUE" if sim else "FALSE")


def split_load(path):
    files, rest = {}, []
    for op, out in path:
        if op.startswith("file:"):
            _, f, text = op.split(":", 2)
            if f != "-":
                files[f] = text + "\n"
        else:
            rest.append((op, out))
    return tuple(rest), files


def load_path(ctx):
    """Where files are found (LoadPath.tla)."""
    q = ctx.quick
    jobs = [
        (("LoadPath", lp(["m.scm", "d1/m.scm", "d2/m.scm"], ["d1", "d2/"], ["no", "push"], ["path", "use", "where"], 2), ["Inv"], ["Mono"]), {}),
        (("LoadPath", lp(["d1/m.scm", "d2/d1/m.scm"], ["d2", "."], ["no", "use"], ["cons", "append", "resolve", "load"], 3 if q else 4), ["Inv"], ["Mono"]), {}),
    ]
    n = 200 if q else 3000
    ops = ["path", "cons", "append", "use", "use", "resolve", "where", "where", "load", "see"]
    for k in range(2):
        jobs.append((("LoadPath", lp(PATHS, ENTRIES, [], ops, 0, sim=True), ["Inv"], []), dict(sim=(n, 24), seed=ctx.seed * 101 + k)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:2]:
        paths.replay(ctx, ps, "(define %loads '())", gcs=(0,), split=split_load, limit=1000 if q else 40000)
    paths.replay(ctx, sum(res[2:], []), "(define %loads '())", gcs=(0, 67), split=split_load)


def C14(ctx):
    load_path(ctx)
    q = ctx.quick
    jobs = [
        # one module's file, and the root module
        (("Modules", c("a", "a", ["def", "pub", "code"], 1, ["read", "call", "use", "def", "set"], 3, "x", "xp"), ["Inv"], ["Stays"]), {}),
        (("Modules", c("a", "a", ["pub", "export"], 2, ["read", "iface", "switch", "exports", "def"], 2 if q else 3), ["Inv"], ["Stays"]), {}),
        # modules that use each other
        (("Modules", c("ab", "ab", ["use", "def", "re-export"], 1, ["read", "use"], 2, few="ab"), ["Inv"], []), {}),
        (("Modules", c("ab", "ab", ["def"], 1, ["read", "ref", "switch"], 2, few="ab"), ["Inv"], []), {}),
        (("Modules", c("a", "a", ["def", "code", "error"], 1, ["capture", "jump", "switch", "def", "loads", "callin"], 3, names="xpq"), ["Inv"], []), {}),
        # modules without files
        (("Modules", c("", "de", [], 0, ["mod", "def", "read", "set", "root"], 4, few="de"), ["Inv"], ["Stays"]), {}),
        (("Modules", c("", "d", [], 0, ["mod", "def", "code", "read", "call", "root"], 5 if q else 6, names="xm", few="d"), ["Inv"], []), {}),
        (("Modules", c("", "de", [], 0, ["switch", "pub", "muse", "re-export", "def", "read"], 4 if q else 5, few="de"), ["Inv"], []), {}),
    ]
    nb = len(jobs)
    n = 150 if q else 2500
    for k in range(7):
        kinds = KINDS + [["read", "call", "use"] * 6, ["def", "set", "switch", "read"] * 5, ["export", "re-export", "muse", "read", "iface"] * 4, ["binder", "leave", "ref", "bound"] * 3, ["capture", "jump", "switch"] * 5,
                         ["code", "call", "callin", "mod"] * 5, []][k]
        fk = FKINDS + [["use"] * 4, ["def"] * 4, ["export", "re-export", "use"] * 3, [], ["code"] * 4, ["code", "pcode"] * 4, ["error"] * 2][k]
        jobs.append((("Modules", c("abc", "abcd" if k % 2 else "abcde", fk, 5, kinds, 0, sim=True), ["Inv"], []), dict(sim=(n, 28), seed=ctx.seed * 83 + k)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:nb]:
        paths.replay(ctx, ps, PRELUDE, gcs=(0, 61), split=split, limit=1500 if q else 40000)
    runs = sum(res[nb:], [])
    paths.replay(ctx, runs[0::2], PRELUDE, gcs=(0, 101), split=split)
    paths.replay(ctx, [rename(p) for p in runs[1::2]], renamed(PRELUDE), gcs=(0, 101), split=split)
    ctx.assumptions.append("not claimed: module names of built-in procedures, set! of undefined names, names only the current module knows in code of another one, what an export of a name found elsewhere gives when it is not found there any more, "
                           "macros and procedures in autoloads and binders beyond variables, the order of module-map")
