"""C27: the option interfaces (Options.tla)."""
import paths

OPS = ["report", "spoil", "again", "set", "one", "enable", "disable"]


def C27(ctx):
    def c(faces, values, numbers, ops, length, sim=False):
        return dict(Faces="{" + ", ".join(f'"{f}"' for f in faces) + "}", Values="{" + ", ".join(paths.tla_str(v) for v in values) + "}", Numbers="{" + ", ".join(map(str, numbers)) + "}",
                    Ops="{" + ", ".join(f'"{o}"' for o in ops) + "}", MaxLen=length, Sim="TRUE" if sim else "FALSE")
    jobs = [(("Options", c(["read"], ["#f", "prefix"], [5], OPS, 2), ["Inv"], ["Mono"]), {}),
            (("Options", c(["debug"], ["#t", "base"], [0, 7], OPS, 1), ["Inv"], ["Mono"]), {}),
            (("Options", c(["debug"], ["#f"], [7], [o for o in OPS if o != "again"], 2), ["Inv"], ["Mono"]), {})]
    n = 25 if ctx.quick else 1500
    for q in range(5):
        jobs.append((("Options", c(["read", "debug"] if q else ["read"], ["#f", "#t", "prefix", "postfix", '"text"', "(1 (2 a))", "#(1 2)"], [0, 1, 79, 1000, 123456789], OPS + ["set", "one"], 0, sim=True), ["Inv"], []),
                     dict(sim=(n, 50), seed=ctx.seed * 79 + q)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:3]:
        paths.replay(ctx, ps, gcs=(0,), limit=1500 if ctx.quick else 40000)
    paths.replay(ctx, sum(res[3:], []), gcs=(0, 53))
    ctx.assumptions.append("what the options do (keyword styles, reading symbols in lower case, limits on the stack) is not claimed; an option list with something in it that is no option name or value is not either")
