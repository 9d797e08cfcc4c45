"""The registry: property -> (module of checks/, level)."""
CHECKS = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C15", "C16", "C20"):
    CHECKS[_p] = ("evaluator", "model_checking")
CHECKS["C09"] = ("gcheap", "model_checking")
CHECKS["C22"] = ("foreign", "model_checking")
CHECKS["C27"] = ("options", "model_checking")
CHECKS["C10"] = ("tables", "model_checking")
CHECKS["C13"] = ("equiv", "model_checking")
CHECKS["C28"] = ("symbols", "model_checking")
CHECKS["C30"] = ("builtins", "model_checking")
CHECKS["C19"] = ("arith", "model_checking")
CHECKS["C26"] = ("ports", "model_checking")
CHECKS["C17"] = ("ports", "model_checking")
CHECKS["C14"] = ("modules", "model_checking")
CHECKS["C21"] = ("capi", "model_checking")
CHECKS["C24"] = ("script", "model_checking")
CHECKS["C29"] = ("script", "model_checking")
CHECKS["C18"] = ("reader", "model_checking")
CHECKS["C25"] = ("strings", "model_checking")
for _p in ("C11", "C12", "C23"):
    CHECKS[_p] = ("heap", "model_checking")

# technique and level note, per module of checks/ or per property
PATHS = ("TLA+ specification of the component; TLC explores it exhaustively within bounds and randomly beyond, and every path it writes is replayed on the real interpreter",
         "every result of every operation of every replayed path is compared with what the specification says; exhaustive within the small bounds of the check, sampled histories beyond them")
NOTES = {
    "tables": PATHS,
    "heap": PATHS,
    "strings": PATHS,
    "arith": PATHS,
    "symbols": PATHS,
    "builtins": PATHS,
    "equiv": PATHS,
    "options": PATHS,
    "reader": PATHS,
    "ports": PATHS,
    "script": PATHS,
    "modules": PATHS,
    "capi": PATHS,
    "foreign": PATHS,
    "gcheap": (PATHS[0], PATHS[1] + "; what each collection frees is checked to be unreachable in the specification and not freed before, memory in use to stay constant where the specification's state does; "
               "that everything dead is freed in the end is checked as a share over many histories, as the collector is conservative"),
    "evaluator": ("TLA+ specification of the evaluator (Machine.tla); TLC validates recorded runs of the real interpreter against it",
                  "TLC runs the specification on every program and checks each event the real interpreter emitted, and the end of the run, "
                  "against it; programs are systematic families plus random ones, bounded in size, run with and without forced collections"),
}
