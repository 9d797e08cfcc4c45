"""Writes properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=["src/c/" + f for f in files], mechanism=[dict(name=n, where="src/c/" + w) for n, w in mech],
                               observe_at=observe or ["values a program observes and prints"], hook_needed=None)))

prop("C01", "Variables are lexically scoped, and closures share and keep their bindings",
 "A variable reference or set! always acts on the binding made by the innermost lambda, let, let*, letrec, named let, do or inner define around it in the program text, and on the global binding only if there is none. Every call, let and do iteration makes new bindings, never touching an outer variable of the same name, and every closure made there sees and shares exactly those bindings for as long as it lives. A define in a body is local to that body.",
 ["programs"], "every program nesting binding forms, closures, assignments and calls in any way",
 "The tests run a fixed set of small programs, mostly with distinct names; shadowing, assignment through several closures and re-entry combine without bound.",
 ["eval.cc", "environment.cc", "let.cc", "do.cc", "define.cc", "procedure.cc"],
 [("environment frames and search", "environment.cc:scm_env_search_entry"), ("procedure call frames", "procedure.cc:apply_procedure"), ("binding forms", "let.cc:expand_let"), ("iteration frames", "do.cc:make_do_env")])
prop("C02", "Control forms evaluate exactly the chosen parts, once, in order",
 "if, cond (with else and =>), case, and, or, begin, do, and the bodies of lambda and let evaluate exactly the subexpressions their rules select, each exactly once and left to right, and return the value of the last one evaluated. Only #f counts as false, case selects by eqv?, and do evaluates test, body and steps in that order in every iteration, with all steps computed before any variable changes.",
 ["programs"], "every composition of control forms with effects in every position",
 "Tests look at the value of single forms; double or missing evaluation and wrong order only show with effects, in compositions nobody wrote down.",
 ["eval.cc", "cond.cc", "case.cc", "do.cc", "let.cc"],
 [("if/and/or/begin", "eval.cc:eval_with_env"), ("cond", "cond.cc:eval_cond"), ("case", "case.cc:eval_case"), ("do", "do.cc:eval_do")])
prop("C03", "A call evaluates operands once, left to right, and binds exactly the arguments",
 "Calling a procedure, directly or through apply, map, map-in-order, for-each or call-with-values, passes exactly the values of the operands, each evaluated once and left to right after the operator and never evaluated again, to exactly one run of the procedure's body. The number of arguments must match the parameters (a rest parameter takes a fresh list of what is left), and otherwise an error is thrown and the body does not run. map returns the results in list order, stopping at the shortest list, and for-each calls in list order.",
 ["programs"], "every procedure (parameter list with or without rest, builtin, continuation) and every argument list, however it is called",
 "Tests call with matching, simple arguments; symbols, lists and empty lists as arguments, wrong counts, and nested higher-order calls are unbounded.",
 ["eval.cc", "apply.cc", "procedure.cc", "function.cc", "map.cc", "for_each.cc"],
 [("closure application", "procedure.cc:apply_procedure_with_values"), ("builtin application", "function.cc:eval_with_func"), ("apply", "apply.cc:eval_apply"), ("map", "map.cc:eval_map"), ("for-each", "for_each.cc:eval_for_each")])
prop("C04", "A continuation can be called any number of times and resumes exactly there",
 "Calling a continuation abandons the current computation and returns the given values from the call/cc expression that made it, whether that expression is still running or returned long ago, once or many times, from any depth, procedure or later toplevel form. What is evaluated afterwards is what followed the call/cc expression, with the intermediate results computed before the capture intact and with every change made to variables, pairs, vectors and hash tables since then kept.",
 ["programs", "histories"], "every history of captures and calls of continuations, nested and re-entered in any order",
 "Tests re-enter a handful of generators; the saved stack must be right for every shape of pending computation and every order of re-entry.",
 ["continuation.cc", "eval.cc", "map.cc", "dynwind.cc"],
 [("stack copy and restore", "continuation.cc:scm_make_continuation"), ("jump", "continuation.cc:scm_dynthrow")])
prop("C05", "dynamic-wind guards run on every entry to and exit from the body",
 "Whenever control enters the extent of a dynamic-wind body, normally or through a continuation, its before guard runs, and whenever control leaves it, normally, through a continuation, a throw or an error, its after guard runs; exactly once per crossing. A jump between two points runs the after guards of exactly the extents left, innermost first, then the before guards of exactly those entered, outermost first, before the computation goes on.",
 ["programs", "histories"], "every nesting of extents and every sequence of jumps, throws and errors between them",
 "Tests cover one or two nesting levels and one jump; the common part of two extents matters only for several levels and jumps.",
 ["dynwind.cc", "continuation.cc", "throw.cc"],
 [("extents in force", "dynwind.cc:g_wind_chain"), ("jump to another extent", "dynwind.cc:scm_dynthrow"), ("leaving by throw", "dynwind.cc:unwind_wind_chain")])
prop("C06", "throw reaches exactly the innermost matching catch",
 "A throw is handled by the innermost catch in force whose tag is #t or the thrown key: its handler is called once, with the key and the thrown arguments, outside that catch and outside every catch and extent inside it, and its value is the value of the catch expression. A catch is in force exactly during its thunk, including when a continuation leaves or re-enters the thunk, and catches that do not match are passed over. Without a throw a catch returns its thunk's value.",
 ["programs", "histories"], "every nesting of catches with every sequence of throws, errors and continuation jumps",
 "Tests throw through one or two levels; stale entries left by earlier throws and jumps only matter later, in longer histories.",
 ["throw.cc", "continuation.cc", "error.cc"],
 [("catches in force", "throw.cc:g_catch_stack"), ("finding the catch", "throw.cc:scm_throw"), ("restoring catches on a jump", "throw.cc:scm_restore_catch_stack")])
prop("C07", "Every error in a program is a catchable throw and leaves the interpreter usable",
 "An unbound variable, a wrong number of arguments, an operand of the wrong type or out of range, the application of something that is not a procedure, and a special form that lacks a required part or has a wrongly shaped one are all reported as a throw that a surrounding (catch #t ...) handles, in every position of a program. They never end the process, corrupt data that existed before, or change how the rest of the program behaves, and a program that does not catch the error continues with its next toplevel form.",
 ["programs", "inputs"], "every builtin procedure with every kind of operand in every position, and every malformed special form, anywhere in a program",
 "The space is builtins times operand kinds times positions; tests check a few error cases, and an aborted process takes every later test with it.",
 ["error.cc", "eval.cc", "function.cc", "number.cc", "list.cc", "vector.cc", "string.cc", "char.cc"],
 [("type checks of builtins", "error.cc:type_error"), ("syntax checks", "eval.h:check_syntax"), ("builtin arity", "function.cc:eval_with_func"), ("toplevel catch", "pscm_api.cc:pscm_eval")])
prop("C08", "Garbage collection is invisible to programs",
 "A collection at any moment, during any evaluation, parse, print or call into a builtin, never changes what a program observes: every object that variables, closures, pending computations, captured continuations, active catches, promises, modules, ports or global tables can still reach keeps its contents and identity. This holds however often collections happen.",
 ["schedules", "programs"], "every program and every placement of collections in its run",
 "Collections happen only after much allocation, so tests hardly ever collect, and never in the middle of a particular builtin.",
 ["gc.cc", "gc.h", "continuation.cc"],
 [("marking from stack and globals", "gc.cc:run_gc"), ("tracing by type", "gc.cc:trace_fns"), ("captured stacks", "gc.cc:trace_cont")])
prop("C09", "Garbage is reclaimed, once, and live objects never are",
 "An object that a program can no longer reach is reclaimed by later collections, and the free function a foreign object's type registered then runs exactly once for it; an object that can still be reached, from a variable, a pending evaluation, a captured continuation or another live object, is never reclaimed or changed. The collector is conservative: what the stack, or the stack saved in a live continuation, happens to hold counts as reachable. A program that keeps a bounded amount of data live runs in bounded memory however long it runs, whatever kinds of object it discards.",
 ["histories", "programs"], "every history of allocation, linking, unlinking and collection over object graphs of any shape, cycles included",
 "No test observes reclamation at all.",
 ["gc.cc", "smob.cc"], [("sweep", "gc.cc:run_gc"), ("foreign object release", "smob.cc:scm_set_smob_free")],
 ["release callback of foreign objects", "process memory"])
prop("C10", "Hash tables are finite maps under their key equality",
 "After any history of hash-set!, hash-create-handle!, hash-remove! and changes through handles, hash-ref and hash-get-handle give for every key the value it was last given, or #f if it has none, with keys compared by equal? (hash-), eqv? (hashv-) or eq? (hashq-), and no operation affects another key or another table. hash-fold visits every association exactly once, a handle is the live association, and hash-create-handle! keeps an existing one.",
 ["histories", "inputs"], "every history of operations over several tables and every mix of key kinds, including keys that collide and tables of any size",
 "Tests put a few keys in and look them up; collisions, removal from the middle of a chain and mixtures of key kinds need long histories.",
 ["hash_table.cc", "eq.cc"], [("buckets", "hash_table.cc:scm_c_hash_set_equal"), ("hash functions", "hash_table.cc:hash_code"), ("removal", "hash_table.cc:scm_c_hash_remove_equal")])
prop("C11", "Pairs and lists keep their identity, sharing and contents",
 "Every pair is a distinct mutable cell: set-car! and set-cdr! change that cell for everything that shares it and nothing else, and car, cdr, list-tail, memq and their relatives return the very cells and values in place. cons, list, append, reverse, list-head and map-like procedures build exactly the list they name out of fresh cells (append shares its last argument) without changing their arguments, for proper, improper and empty lists alike; length, list? and the accessors tell proper lists from improper and circular ones and report what does not exist as an error.",
 ["histories", "inputs"], "every history of construction, mutation and access over shared, improper and circular structure",
 "Tests compare printed results of single calls on fresh lists; sharing and mutation only show in histories.",
 ["list.cc", "eq.cc", "pscm_types.h"], [("cells", "pscm_types.h:SCM_List"), ("list operations", "list.cc"), ("mutation", "list.cc:scm_c_set_cdr")])
prop("C12", "Vectors are fixed-length arrays with checked bounds",
 "A vector holds exactly the elements last stored at its indices 0 to length-1: vector-set! changes one element of one vector, for everything that refers to that vector, and vector-ref reads it. An index outside the vector is an error that changes nothing; vector, make-vector, list->vector and vector->list convert all elements in order into fresh objects.",
 ["histories", "inputs"], "every history of vector operations with every index and length, including boundary and empty ones, over shared vectors",
 "Tests use in-range indices of small vectors.",
 ["vector.cc", "list.cc"], [("element access", "vector.cc:scm_c_vector_ref"), ("conversion", "vector.cc:scm_c_vector_to_list")])
prop("C13", "eq?, eqv? and equal? are the right equivalences",
 "eq? and eqv? are true exactly for the same object (pair, vector, procedure, hash table, port, promise, empty list, boolean, symbol by name) or, for eqv?, the same number or character; equal? is true exactly when the two objects have the same structure with equal? parts, and otherwise when they are eqv?. All three are reflexive, symmetric and transitive, eq? implies eqv? implies equal?, and objects of different types are never equal; memq, memv, member, assq, assv, assoc, case and hash tables select by the same equivalences. (Whether eq? holds of equal numbers, characters or strings and eqv? of equal strings, and how an exact and an inexact number of the same value compare, is left open.)",
 ["inputs"], "every pair and triple of objects of every type, nested to any depth",
 "The number of type combinations is quadratic and the structures unbounded; tests list a few pairs.",
 ["eq.cc", "list.cc", "alist.cc", "case.cc", "hash_table.cc"], [("comparison", "eq.cc:scm_c_is_equal"), ("identity", "eq.cc:scm_c_is_eq")])
prop("C14", "Modules isolate names and export exactly what they declare",
 "A name defined in a module is found by code of that module, and by other modules exactly if it is exported or made public there (or re-exported, or the module exports nothing at all) and they use that module; a module's own definition comes before what it uses, the latest use before earlier ones, and all before the root module; neither definitions nor assignments in one module change a binding of the same name in another, and users of an exported variable see its present value. Procedures and macros run with the names of the module that defined them, whichever is current when they are called; the file of a module, and one loaded by name, is looked for in the directories of %load-path in their order and then in the current directory; a module file is loaded once, an error in it or a jump leaves the current module as it was, and module-ref, module-bound? and resolve-module agree with what evaluation in the module finds.",
["histories", "configurations"], "every set of modules, use relations, definitions and lookups in any order",
 "Tests load two or three fixed modules.",
 ["module.cc", "environment.cc", "define.cc"], [("lookup through uses", "module.cc:module_search_variable"), ("export", "module.cc:eval_export"), ("definition", "define.cc:eval_define")])
prop("C15", "Macros and quasiquote build exactly the code and data written",
 "A macro call passes its operands unevaluated to the macro's procedure, in order and in the macro's parameter list, and evaluates what it returns, exactly once, in the place of the call; macroexpand-1 gives that expansion and macroexpand repeats it until the form is no macro call, both evaluating nothing else; quoted data comes through unchanged. A quasiquote template yields the same structure with each unquote replaced by its value and each unquote-splicing by its elements, evaluated once and left to right, in lists, improper lists, vectors and nested templates.",
 ["programs", "inputs"], "every macro and template and every use of them, nested in any way",
 "Templates and expansions are unbounded; tests fix a few.",
 ["macro.cc", "quasiquote.cc", "eval.cc"], [("expansion", "macro.cc:expand_macro_call"), ("templates", "quasiquote.cc:quasi")])
prop("C16", "A promise computes its value at most once",
 "delay evaluates nothing; the first force evaluates the expression in the scope of the delay, and once a force has returned a value every later force returns that same value without evaluating again, even when the expression forces the promise itself. A force that is left by a throw or a continuation leaves the promise unforced.",
 ["programs", "histories"], "every history of forcing, also re-entrant and aborted",
 "Tests force simple promises a couple of times.",
 ["delay.cc"], [("force", "delay.cc:scm_c_force")])
prop("C17", "Ports read and write exactly the characters in order",
 "Reading a file or string port with read-char, peek-char and read in any mixture consumes its characters exactly once and in order: peek-char consumes nothing, read consumes exactly one datum, and after the last character every read gives the end-of-file object. What is written with write-char, display, write and newline arrives completely, once and in order at the port it was written to, and procedures without a port argument use the current port at that moment.",
 ["histories", "inputs"], "every interleaving of reads, peeks and writes over several ports and every content",
 "Tests read small fixed strings with one kind of operation.",
 ["port.cc", "print.cc", "parse.cc", "read.cc"], [("character input", "port.cc:scm_c_read_char"), ("one datum", "port.cc:scm_c_read"), ("output", "port.cc:scm_c_write_char")])
prop("C18", "What write prints, read reads back as an equal object",
 "For every object built of integers, exact ratios, booleans, characters, strings with any characters, ordinary symbols, pairs, vectors and the empty list, reading what write printed gives an equal? object of the same shape, alone and among other data. The reader takes every spelling of a datum (whitespace, comments, quote abbreviations, dotted tails, escapes) to the same object, and an incomplete or malformed text is reported and not taken for something else.",
 ["inputs"], "every object and every spelling",
 "Round trips need arbitrary nesting and characters; tests print a few objects.",
 ["parse.cc", "print.cc", "read.cc"], [("reader", "parse.cc:parse_expr"), ("printer", "print.cc:print_ast")])
prop("C19", "Exact arithmetic is exact",
 "+, -, *, /, =, <, >, <=, >=, max, min, abs, quotient, remainder, modulo, gcd, lcm, expt, the sign and parity predicates and number conversion give the mathematically exact result for exact integers and ratios, in lowest terms and as an integer when it is one, as long as numerators, denominators and intermediate results fit in 64 bits. One inexact operand makes the result inexact, and it is the exact result where inexact numbers hold all that is needed without rounding; reading and writing keep both kinds of numbers. Comparisons hold over every adjacent pair of their operands, and division by zero is an error.",
 ["inputs"], "every list of operands, of either sign, integers, ratios and inexact numbers mixed",
 "Tests check a few sums of small positive integers.",
 ["number.cc"], [("arithmetic", "number.cc:scm_c_add_number"), ("ratios", "number.cc:normalize_rational"), ("comparison chains", "number.cc:scm_c_lt_chain")])
prop("C20", "Multiple values reach exactly their receiver",
 "call-with-values passes exactly the values its producer returned, in number, order and identity, to the receiver, whether the producer used values, a single ordinary value, a continuation called with several arguments or apply; (values x) is x. A list is never taken for multiple values nor multiple values for a list.",
 ["programs"], "every producer and receiver, with any number and kind of values",
 "Tests use two or three numbers.",
 ["values.cc", "eval.cc", "continuation.cc"], [("values", "values.cc:scm_c_values"), ("call-with-values", "values.cc:eval_call_with_values")])
prop("C21", "The C interface acts on the same world as Scheme code",
 "What a C program defines, looks up, evaluates, calls or catches through the C interface, in whatever module is current, is exactly what Scheme code defines, looks up, evaluates, calls or catches: values pass unchanged in both directions; a registered C function gets exactly the arguments of the call, and is not called when it takes a fixed number of them and the call has another; calls into Scheme do not evaluate the arguments again; an error inside a C call is delivered to the nearest catch, in C or in Scheme, or ends the evaluation the C program asked for, which then gives no value and leaves the key and the message to be asked for, and calls the error handler that was set; a continuation can be left from within C calls. A C call never changes the current module unless that is what it is for, however it ends, and after any of these the interpreter is usable for the next call.",
 ["histories"], "every history of C calls and Scheme evaluation, mixed",
 "The C tests each make a few calls in a fresh process.",
 ["pscm_api.cc", "function.cc", "apply.cc", "throw.cc", "module.cc"], [("evaluation", "pscm_api.cc:pscm_eval"), ("registration", "function.cc:scm_define_function"), ("calls", "apply.cc:scm_call_1")],
 ["results of C interface calls"])
prop("C22", "Variable objects and foreign objects keep their value and type",
 "A variable object holds the value last given to it, is bound exactly if it was given one, and is distinct from every other; reading an unbound one is an error. A foreign object keeps the data it was made with and the type it was made for, and is recognised as exactly that type; equal?, printing and calling it do what its type registered for that, and otherwise it is equal? only to itself and cannot be called.",
 ["histories"], "every history of operations over several variables and foreign types",
 "Tests make one variable and one foreign type.",
 ["variable.cc", "smob.cc"], [("variables", "variable.cc:scm_variable_set_x"), ("foreign types", "smob.cc:scm_smob_p")])
prop("C23", "Association lists return the first match and update without side effects",
 "assq, assv and assoc return the first pair of the list whose car is the key under their equivalence, the very pair and not a copy, or #f; assoc-ref returns its cdr. acons, assq-set!, assoc-set! and assoc-remove! return a list in which exactly that key's association is changed, added or removed, every other association keeping its value.",
 ["histories", "inputs"], "every association list, with duplicate keys, any key kinds and any history of updates",
 "Tests use two-element lists with symbol keys.",
 ["alist.cc"], [("search", "alist.cc:scm_c_assoc"), ("update", "alist.cc:scm_c_assoc_set")])
prop("C24", "The command runs a script's forms in order and reports the outcome",
 "pscm_cc FILE (also with --test) evaluates the forms of the file in order, each exactly once, prints the value of every form that has one in write notation on its own line, goes on with the next form after an error in one, and exits with status 0 or the status given to exit. A file that is missing or cannot be read as Scheme makes it exit with a nonzero status, and standard output contains nothing but what forms wrote and printed.",
 ["programs", "configurations"], "every script and every command line",
 "Tests compare the output of fixed scripts.",
 ["eval.cc", "load.cc", "exit.cc", "parse.cc"], [("script loop", "eval.cc:do_eval"), ("exit", "exit.cc:scm_c_exit")],
 ["standard output and exit status of the command"])
prop("C25", "String and character procedures compute exactly what they name",
 "string-length, string-ref, substring, string-append, string, make-string, string->list, list->string, string-set!, the string and character comparisons, with and without case, character classes and case conversion, string->number, number->string, symbol->string and string->symbol give exactly the result defined by the sequence of character codes, for every string including empty ones and ones with any character, into fresh strings, and leave their arguments unchanged (string-set! changing only its one position). string->number gives #f for digits that name a number past 64 bits. An index outside the string or an operand of another type is an error that changes nothing.",
 ["inputs", "histories"], "every string, character, index pair and history of mutation",
 "Tests use short alphabetic strings and valid indices.",
 ["string.cc", "char.cc", "symbol.cc", "number.cc"], [("string operations", "string.cc"), ("characters", "char.cc")])
prop("C26", "A soft port calls its procedures with exactly the characters in order",
 "What is written to a soft port reaches its character or string procedure completely, once and in order, flushing and closing call their procedures, and reading it returns exactly the characters its input procedure delivers, peeked ones not lost, ending when that gives #f or the end-of-file object. A port without the procedure for an operation, or whose procedure throws, loses nothing written before and stays usable.",
 ["histories"], "every history of operations over soft ports with every set of procedures",
 "Tests make one soft port and write a few strings.",
 ["port.cc"], [("soft ports", "port.cc:scm_c_make_soft_port")])
prop("C27", "Option interfaces report and change exactly the options given",
 "The option interfaces called without argument report the current settings in a fixed order, and called with a list set exactly the options in it, with their values, and return the settings after that; what they return is the caller's own list; read-enable, read-disable and read-set! change one option and leave every other alone. Unknown options are an error that changes nothing.",
 ["histories", "configurations"], "every history of option changes",
 "Tests look at the initial options and one change.",
 ["read.cc", "debug.cc"], [("reader options", "read.cc:scm_c_read_options_interface"), ("debugger options", "debug.cc:scm_c_debug_options_interface")])
prop("C28", "Symbols are unique by name and gensym never repeats",
 "Two symbols are eq? exactly if they have the same name, however they were made (read, quoted, string->symbol, symbol->string round trips, in hash tables and case); symbol->string and string->symbol are inverse for every name. gensym returns a symbol different from every earlier gensym and from every symbol read or quoted.",
 ["histories", "inputs"], "every name and every history of symbol creation",
 "Tests compare two or three symbols.",
 ["symbol.cc", "parse.cc", "eq.cc"], [("symbols", "symbol.cc:scm_c_string_to_symbol"), ("comparison", "eq.cc:scm_c_is_eq"), ("gensym", "symbol.cc:scm_c_gensym")])
prop("C29", "The interactive loop evaluates each expression once and survives errors",
 "Without arguments the command reads expressions from the standard input and evaluates each exactly once, in order, as soon as the line that closes it has been read, wherever lines are broken and whether expressions share a line; it prints the expression's value, asks for a continuation exactly while a list or string is open, and goes on with the next line after an error or text that cannot be read. It ends with status 0 at the end of the input, or with the status given to exit.",
 ["histories", "inputs"], "every sequence of input lines",
 "The tests never start the interactive loop.",
 ["repl.cc", "pscm_api.cc", "parse.cc"], [("interactive loop", "repl.cc:repl"), ("evaluation", "pscm_api.cc:pscm_eval")])

prop("C30", "Builtins refuse wrong operands without any effect; types are told apart",
 "A builtin called, directly or through apply, with an operand of a kind it does not accept, with an index, length or radix no object can have, with a zero divisor, or with more or fewer operands than it takes when that number is fixed, throws an error (wrong-number-of-args for the latter) before it calls any procedure it was given, and nothing changes: not its other operands nor any other value, not the current ports and not the current module. Calling a value that is no procedure is an error in the same way. Each type predicate holds of exactly the values of its kind, whatever was done to them, so that boolean, character, string, symbol, number, empty list, pair, vector, procedure, port, variable, module and end-of-file values are never taken for one another; defined? tells exactly the names defined globally so far.",
 ["inputs", "histories"], "every builtin, every position of an operand, every kind of value there",
 "Tests call builtins with right operands; there are about 130 builtins with up to three operands and 24 kinds of values, and a wrong one read as another kind crashes or corrupts only sometimes.",
 ["list.cc", "string.cc", "char.cc", "vector.cc", "hash_table.cc", "number.cc", "port.cc", "module.cc", "predicate.cc", "function.cc", "variable.cc", "delay.cc", "alist.cc"],
 [("calls of builtins", "function.cc:eval_with_func"), ("type predicates", "predicate.cc:scm_c_type_check")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
