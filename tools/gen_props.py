#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Links behave as immutable sequences of bools, numbers and strings",
 "Whatever sequence of pushes, concatenations, link literals and loops, and taking of first, last, rest and all-but-last builds a link, reading it back (first, last, rest, all-but-last, emptiness, text) gives exactly the booleans, numbers and strings that were put in, in order, however long the link is. "
 "No operation on one link ever changes what any other link or copy contains. "
 "Pushing a value that is not a boolean, number, string or link is reported as an error and leaves the link unchanged.",
 ["histories", "inputs"], "every history of link operations, every item type, every length including those around internal storage boundaries, every sharing pattern between links",
 "The tests never look at a link's contents; the benches only build links. The storage has block boundaries, sharing and type tags, so errors show only for particular lengths and histories.",
 ["src/link.rs", "src/runtime/mod.rs", "src/runtime/for_n.rs", "src/dyon_std/mod.rs"],
 [("block storage with two type bits per item, shared slices, copy on write", "src/link.rs Block/Slice/Link"), ("link literal, link loop, += and -= on links", "src/runtime/mod.rs link/assign, src/runtime/for_n.rs link_for_n_expr")],
 ["Link::{push,add,head,tip,tail,neck,is_empty}", "head/tip/tail/neck/is_empty/str on links in programs"])

prop("C02", "Running scripts never corrupts or leaks memory",
 "Loading and running any script, and using any public value or link operation, never reads or writes memory that is freed, out of bounds or uninitialised, never frees twice, and never corrupts other values. "
 "When all values, modules and runtimes have been dropped, no memory reachable only from them stays allocated.",
 ["programs", "histories", "schedules"], "every loadable script, including nested item access, mutation while other references exist, references in collections, closures, links, threads and error paths",
 "The interpreter uses raw pointers into its stack and into shared collections and stores strings in links by transmuting pointers; a test that merely passes does not observe an invalid access or a leak.",
 ["src/runtime/mod.rs", "src/link.rs", "src/lib.rs", "src/dyon_std/mod.rs"],
 [("copy-on-write through shared pointers and raw pointers kept only for one expression", "src/runtime/mod.rs item_lookup/item/assign"), ("manual reference counting of strings in link blocks", "src/link.rs Block drop/clone/push")],
 ["sanitizer reports while the workloads of the other properties run"])

prop("C03", "Mutation changes exactly the named place and nothing else",
 "Assigning to a variable, array element, object property or any nested path changes that place and no variable, element or copy that was obtained by copying (plain declaration or assignment from another variable, cloning, filling, pushing, inserting, a returned copy). "
 "A collection literal that names a variable and the by-reference insertions keep showing that variable's current value until the element itself is replaced, and a mutable argument changes the caller's variable and only that. "
 "Merely reading a place, in any way, never changes it.",
 ["programs", "histories"], "every sequence of declarations, assignments, copies, reference insertions and mutable calls over nested arrays and objects",
 "No test runs a program that mutates one of two copies; whether copies share storage depends on the history of the program.",
 ["src/runtime/mod.rs", "src/dyon_std/mod.rs", "src/lib.rs"],
 [("copy on write of shared arrays and objects during item lookup", "src/runtime/mod.rs item_lookup"), ("shallow copy on declaration, deep clone on push/clone", "src/runtime/mod.rs assign; src/lib.rs deep_clone; src/dyon_std/mod.rs clone/push/insert/_push_ref")],
 ["values printed or passed to external functions after each step"])

prop("C04", "Every loop form visits its range in order and computes its fold",
 "A counting loop evaluates its body once for every integer from start (default 0) up to but not including end, in increasing order, with packed loops nesting left to right and omitted ranges taken as the length of the indexed array. "
 "Sum, product, minimum, maximum, any, all, list-building, link-building and the vector variants return exactly the mathematical fold of the values their bodies produced, including for empty ranges, skipped and early-ended iterations. "
 "A condition loop and an endless loop run their init, condition, body and step in that order until the condition fails or they are left.",
 ["programs", "inputs"], "every loop form, range, nesting, label use and body",
 "Each loop form is a separate implementation with its own handling of break, continue and labels; the tests only load one or two examples and check no result.",
 ["src/runtime/for_n.rs", "src/runtime/mod.rs", "src/ast/mod.rs", "src/ast/infer_len.rs", "src/ast/replace.rs"],
 [("one interpreter routine per loop form", "src/runtime/for_n.rs"), ("range inference and packed-loop rewriting", "src/ast/infer_len.rs, src/ast/mod.rs ForN")],
 ["loop result and the trace of body evaluations"])

prop("C05", "Control flow and scoping follow the program text",
 "Branches, blocks, break, continue (plain and labelled), return and calls transfer control exactly to where the language says, from any nesting of loops, blocks, branches, calls and closures, and every expression is evaluated exactly once, left to right, unless it is short-circuited. "
 "A variable name always refers to the innermost live declaration in its function, and a declaration is gone once its block has ended.",
 ["programs"], "every nesting of control constructs and every position of a transfer in it; every shadowing pattern",
 "The tests check only that a few such programs load; which statement runs next depends on combinations of constructs no finite list of examples covers.",
 ["src/runtime/mod.rs", "src/runtime/for_n.rs", "src/runtime/for_in.rs", "src/ast/mod.rs"],
 [("flow value returned by each expression and consumed by the loop with the matching label", "src/runtime/mod.rs Flow"), ("variables resolved to stack offsets when loading", "src/ast/mod.rs resolve_locals")],
 ["trace of external calls, program result"])

prop("C06", "Secrets name exactly the witness of the result they are attached to",
 "The reason attached to an any or all result and the position attached to a min or max result are, through any nesting of such loops, exactly the loop indices (outermost first) or user-given explanations that witness that result, and asking for them on a value that has none, or on a result that needs no witness, is reported as an error. "
 "Operators, calls and copies never attach a witness that does not belong to the value.",
 ["programs", "inputs"], "every nesting of any/all/min/max loops (counting and receiving), data, operators applied to results, and explanation given",
 "Only loading of secret-typed programs is tested; which witness is attached depends on data, ties, nesting depth and operators.",
 ["src/runtime/for_n.rs", "src/runtime/for_in.rs", "src/dyon_std/mod.rs", "src/runtime/mod.rs"],
 [("secret list pushed per loop level and reversed when read", "src/runtime/for_n.rs any/all/min/max; src/dyon_std/mod.rs why/_where/explain_why/explain_where"), ("operators keep the left operand's secret", "src/dyon_std/mod.rs less/equal/and_also/or_else/not/…")],
 ["why(..), where(..)"])

prop("C07", "Operators and numeric functions compute their mathematical definition",
 "For all operands the arithmetic, comparison and boolean operators on numbers, booleans, strings, 4D vectors and 4x4 matrices, their compound assignment forms, swizzling, vector components, matrix rows and columns, and the numeric library functions return their mathematical definition (double precision for numbers, single precision for vectors and matrices), with the documented operator precedence and associativity. "
 "Operand types with no definition are reported as an error.",
 ["inputs", "programs"], "every operator, operand type combination and operand value, and every expression tree over them",
 "Hardly any expression is ever evaluated by a test; operators × types × values is too large for examples.",
 ["src/dyon_std/mod.rs", "src/runtime/mod.rs", "src/ast/mod.rs", "src/vec4.rs", "src/mat4.rs"],
 [("one function per operator over value variants", "src/dyon_std/mod.rs add/sub/mul/…"), ("precedence from grammar and expression folding", "assets/syntax.txt, src/ast/mod.rs Add/Mul/Pow")],
 ["expression results"])

prop("C08", "Lazy arguments are skipped exactly when the invariant matches",
 "The right operand of short-circuit and/or and the default of unwrap-or are evaluated only when the left operand does not settle the result, and a function argument with a declared lazy invariant ends the call at once, without evaluating later arguments or the body, exactly when its value matches one of the listed patterns. "
 "The call then yields the matching (or unwrapped) value and every other variable of the program is unaffected; when nothing matches the call behaves as if no invariant had been declared.",
 ["programs", "inputs"], "every invariant pattern, argument position, argument value and context of the call",
 "Tests only load programs with lazy invariants; they never observe which arguments were evaluated nor the program state after a skipped call.",
 ["src/runtime/mod.rs", "src/lib.rs", "src/ast/mod.rs"],
 [("comparison of each evaluated argument with the invariant list", "src/runtime/mod.rs call_lazy/call_loaded"), ("value equality used for matching", "src/lib.rs PartialEq for Variable")],
 ["trace of argument evaluations, returned value, values of other locals afterwards"])

prop("C09", "Errors propagate to the right handler with their message and trace",
 "Applying the propagation operator to an ok or some value (or a true or numeric value with a witness) yields the inner value and continues, and on anything else returns an error result from the innermost enclosing function, carrying the original message and one trace entry per propagation, in order, naming that function and place. "
 "A try expression turns any run-time failure inside it into an error result and otherwise wraps the value, and afterwards the program continues with all variables as they were when the failing step began. "
 "Unwrapping an error or none stops the program with a report that contains the message and every trace entry.",
 ["programs", "fault_sequences"], "every value, call depth, position of the operator (expression, variable, nested item) and failing operation",
 "The error examples are only loaded, never run; the property ranges over call depth, position and failure kind.",
 ["src/runtime/mod.rs", "src/dyon_std/mod.rs", "src/write.rs"],
 [("try_fun/try_msg/item try paths push one trace entry and return", "src/runtime/mod.rs"), ("try expression restores the interpreter stacks", "src/runtime/mod.rs try_expr")],
 ["error results, their message and trace, program state after try"])

prop("C10", "A runtime is left balanced and reusable after every call",
 "After any call from the host into a script returns, whether with a value, without one or with an error, the runtime holds the module, variables, call frames, named locals and current objects it held before, so that any later call behaves as on a fresh runtime. "
 "While a script runs, the same holds around every function call, closure call, block, loop and try expression.",
 ["histories", "fault_sequences", "programs"], "every sequence of successful and failing calls, at every nesting depth and failure point",
 "Tests use a fresh runtime once; leftovers only matter after particular failures or early exits followed by further use.",
 ["src/runtime/mod.rs", "src/lib.rs", "src/dyon_std/mod.rs"],
 [("stack lengths recorded per frame and restored", "src/runtime/mod.rs push_fn/pop_fn/block/call/try_expr")],
 ["Runtime::{stack,call_stack,local_stack,current_stack,module}"],
 [("stack, local_stack, current_stack, call_stack", "interpreter stacks", "src/runtime/mod.rs Runtime")])

prop("C11", "Current objects are dynamically scoped and found by name",
 "A function or closure that declares a current object gets the one of that name declared most recently in a block of the call chain that is still running, reads see its latest value, changes through a mutable current are visible to every later reader, and the object disappears when its block ends. "
 "When there is none, the call is reported as an error and nothing of the body runs.",
 ["programs"], "every call chain, shadowing, mutation and block structure",
 "One example is loaded; no test runs a program whose result depends on which current object is found.",
 ["src/runtime/mod.rs", "src/ast/mod.rs"],
 [("search backwards through the stack of current objects on call", "src/runtime/mod.rs call_loaded/call_closure"), ("truncation at block end", "src/runtime/mod.rs block")],
 ["values read through current objects"])

prop("C12", "Closures capture grabbed values at creation and behave like functions",
 "A closure computes its body with its arguments and with each grabbed expression replaced by the value that expression had when the closure was created, at the stated grab level, no matter when, where or how often it is called and what happens to the captured variables afterwards. "
 "Printing a closure gives source text that, when parsed again, is a closure with the same behaviour.",
 ["programs"], "every closure body, grab position and level, environment history and call site",
 "One printing example is run; capture is a rewrite of the syntax tree with a case per construct, and programs nest constructs freely.",
 ["src/grab.rs", "src/runtime/mod.rs", "src/write.rs"],
 [("grab rewriting of every expression kind", "src/grab.rs grab_expr"), ("closure environment with module and relative index", "src/runtime/mod.rs closure/call_closure"), ("closure printing with precedence", "src/write.rs write_expr")],
 ["closure results, closure text"])

prop("C13", "Receivers see every later call exactly once, in order, unaltered",
 "A receiver created for a function yields, for every call of that function made after its creation on any thread sharing the loaded module, exactly one message holding independent copies of that call's arguments, in the order the calls were made (per calling thread), regardless of how many other receivers exist and of which of them have been dropped. "
 "Blocking, polling and looping over a receiver consume each message once, and loops over a receiver compute the same results as loops over the received values.",
 ["schedules", "histories"], "every interleaving of callers, creation and dropping of receivers, any number of receivers and threads",
 "The examples are not run by the tests at all, and delivery depends on the schedule and on which receivers are closed at that moment.",
 ["src/runtime/mod.rs", "src/runtime/for_in.rs", "src/dyon_std/mod.rs"],
 [("flag plus mutex-protected list of channels per function", "src/runtime/mod.rs in_expr/call_loaded"), ("receiving loops", "src/runtime/for_in.rs"), ("wait_next/next", "src/dyon_std/mod.rs")],
 ["recorded send/receive logs"])

prop("C14", "Spawned calls run on copies and are joined exactly once",
 "A call started on a new thread computes the same result as the direct call with copies of its arguments taken at the start, and nothing that either side does to its variables afterwards is seen by the other. "
 "Joining yields that result once, or an error result when the spawned call failed, and joining a handle a second time or while it is shared is reported as an error instead of blocking, crashing or duplicating the result.",
 ["schedules", "programs"], "every schedule, argument value (nested, shared, links, closures), failure of the spawned call and use of the handle",
 "The thread examples are only type checked; isolation and joining depend on schedules and on what the arguments share.",
 ["src/runtime/mod.rs", "src/lib.rs", "src/dyon_std/mod.rs", "src/threading.rs"],
 [("deep clone of arguments into a new runtime", "src/runtime/mod.rs go; src/lib.rs deep_clone"), ("handle taken out once", "src/lib.rs Thread::invalidate_handle; src/dyon_std/mod.rs join__thread")],
 ["joined values"])

prop("C15", "Concurrent scripts are free of data races",
 "Scripts running on several threads that share a loaded module, captured values, links, strings, receivers or thread handles never perform unsynchronised conflicting accesses to shared memory.",
 ["schedules"], "every schedule of threads spawned by scripts or by the host over shared modules and values",
 "A data race passes a functional test on almost every run; only a happens-before monitor sees it.",
 ["src/runtime/mod.rs", "src/lib.rs", "src/link.rs", "src/runtime/for_in.rs"],
 [("values shared only through atomically counted immutable storage, mutexes and channels", "src/lib.rs Variable, src/runtime/mod.rs go/in_expr"), ("per-item lookup caches must be safe to share", "src/ast/mod.rs Item::stack_id")],
 ["thread sanitizer / happens-before reports"])

prop("C16", "Values written as data or text read back unchanged",
 "Any value made of booleans, finite numbers, strings, 4D vectors, arrays, objects, options and links that is written as data, to text or to a file, is read back as an equal value, and a string written as a JSON string is decoded by any JSON reader to the same string. "
 "Text that is not data is rejected with an error, never misread, crashed on or read forever.",
 ["inputs"], "every nesting of values, every number and every string including control, quote, unicode and empty ones; every input text",
 "Only two fixed data files are loaded; writer and reader are separate hand-written code.",
 ["src/write.rs", "src/dyon_std/data.rs", "src/dyon_std/mod.rs"],
 [("escaping writer", "src/write.rs"), ("hand-written data reader", "src/dyon_std/data.rs")],
 ["str, save/load data functions, json strings"])

prop("C17", "References in accepted programs never outlive what they refer to",
 "A program that the loader accepts never, during any run, holds or follows a reference to a variable that has gone out of scope, whether through locals, arguments, returned values, collections, current objects or run-time calls by name. "
 "A program that stores or returns a variable where it may outlive it is rejected when loading, and one whose declared lifetimes make it sound is accepted.",
 ["programs"], "every program over declarations, assignments, lifetimes of arguments, returns, blocks and by-reference insertions",
 "The tests load about twenty fixed lifetime programs; soundness is a statement about all accepted programs and all their runs.",
 ["src/lifetime/mod.rs", "src/lifetime/lt.rs", "src/lifetime/node.rs", "src/dyon_std/lifetimechk.rs"],
 [("ordering of declaration positions and argument lifetimes", "src/lifetime/lt.rs compare_lifetimes"), ("run-time check for calls by name", "src/dyon_std/lifetimechk.rs")],
 ["loader verdicts, every reference on the interpreter stack at every external call"])

prop("C18", "Programs are accepted or rejected by their declared types",
 "The loader accepts programs whose expressions have the declared argument, return, option, result, array, secret, closure and ad-hoc types (including refined and quantified signatures), and rejects a program in which a value whose type is known and definitely different is passed as an argument (to script, imported, aliased, spawned or library functions), returned, used as an operand, as an `if` condition or as a vector component, or left unused as the result of a statement of a function, loop or block body. A number or boolean does not pass for a secret, a secret passes for the plain type; types with different ad-hoc names do not mix in sums, arguments and returns. Items of array literals and results of functions declared with a bare `->` have unknown type and pass anywhere. "
 "In an accepted program without unknown types every value reaching an argument, variable or caller has the declared run-time type, and re-assigning a variable, item or field with `=` to a value of another type at run time is reported as an error.",
 ["programs"], "every program over the typed constructs; every pair of declared and actual type at every position",
 "The tests load a fixed list of accepted and rejected files; a weakened or over-strict rule for another combination of types and positions passes them.",
 ["src/lifetime/typecheck.rs", "src/lifetime/typecheck/refine.rs", "src/ty.rs", "src/module.rs", "src/runtime/mod.rs"],
 [("type propagation over the node graph and consistency checks", "src/lifetime/typecheck.rs"), ("directional compatibility of types", "src/ty.rs goes_with/ambiguous/bind_ty_vars"), ("declared signatures of the library", "src/module.rs")],
 ["loader verdicts, run-time types of values"])

prop("C19", "Only places declared mutable can be mutated through arguments",
 "Loading rejects a program that assigns to, or passes on as mutable, an argument or current object not declared mutable, at any nesting of the item, or whose call marks different arguments as mutable than the function declares. "
 "In an accepted program a call without the mutable mark leaves every variable of the caller, other than its current objects, unchanged, and a variable passed with the mark ends up as the callee left it.",
 ["programs"], "every function signature, mutability marking, call form (plain, named, by alias, spawned) and mutation site",
 "One file is loaded by the tests; the rule must hold for every combination of site, item path and call form.",
 ["src/lifetime/mod.rs", "src/ast/mod.rs", "src/lifetime/node.rs"],
 [("mutability part of function names and checks of mutated items and call arguments", "src/lifetime/mod.rs"), ("names with (mut,_) suffix", "src/ast/mod.rs Function")],
 ["loader verdicts, caller's variables after calls"])

prop("C20", "Loading any text terminates with a module or an error message",
 "Loading any text of bounded nesting as a script, a syntax-rule file or a document to be parsed by such rules ends with success or with an error message, never with a crash, abort or endless run, and gives the same verdict and message every time. "
 "A failed load adds no function to the module it was loading into.",
 ["inputs"], "every text, in particular mutations of valid programs and truncated or deeply malformed ones",
 "The tests load well-formed files only.",
 ["src/lib.rs", "src/ast/mod.rs", "src/lifetime/mod.rs", "src/lifetime/node.rs", "src/dyon_std/meta.rs"],
 [("parse, parallel lifetime check, conversion, registration in that order", "src/lib.rs load_str")],
 ["load_str result, module functions before and after"])

prop("C21", "A script failure is reported as an error, never as a crash",
 "Whatever values an accepted script computes with (out-of-range indices, wrong dynamic types, empty collections, extreme numbers, missing keys or functions, failed conversions), the host gets either the script's result or an error message, and the process and other scripts are unaffected.",
 ["programs", "inputs"], "every library function, operator, assignment form and item access applied to every combination of dynamic types and boundary values",
 "The tests run almost no script; failing combinations of dynamic types are many and each is a separate code path.",
 ["src/runtime/mod.rs", "src/dyon_std/mod.rs", "src/embed.rs", "src/runtime/for_n.rs"],
 [("results with error strings on every path", "src/runtime/mod.rs, src/dyon_std/mod.rs")],
 ["result of calls, panics caught"])

prop("C22", "Names resolve to the intended function across modules",
 "A call resolves to the function of that name visible to the calling module: its own functions first (the last one of that name), then imported ones, later imports before earlier ones, then the host's and the library's, and is rejected when loading if none has that name or the number of arguments differs, with use-aliases selecting exactly the named functions of the named namespace; imports bring in what the imported module defines and re-exports and nothing else. "
 "Functions keep calling the functions of their own module wherever they are called from, and calling by name at run time reaches the same function with the same checks of argument count and lifetimes.",
 ["programs", "configurations"], "every set of modules, imports, namespaces, aliases and same-named functions",
 "A few two- or three-module examples are loaded but not run; resolution uses relative indices that depend on the number and order of loaded functions.",
 ["src/module.rs", "src/lib.rs", "src/ast/mod.rs", "src/prelude.rs", "src/dyon_std/mod.rs", "src/runtime/mod.rs"],
 [("reverse search through loaded functions with relative indices", "src/module.rs find_function"), ("use lookup", "src/ast/mod.rs UseLookup"), ("load/call functions", "src/dyon_std/mod.rs load__imports/call/call_ret")],
 ["which function body ran"])

prop("C23", "Values cross the host boundary unchanged",
 "Every host value pushed into a script (numbers of all supported widths, booleans, strings, options, results, tuples, arrays, vectors, matrices, user objects) is seen by the script as the corresponding value, and popping it back as the same host type gives an equal value; popping a value of another type is reported as an error. "
 "Registered host functions are called once per script call with the arguments in order, and their result or error reaches the script unchanged.",
 ["inputs"], "every supported host type and value, every mismatching script value, every arity",
 "No test converts a value; the conversions are written per type.",
 ["src/embed.rs", "src/macros.rs", "src/vec4.rs", "src/mat4.rs", "src/lib.rs", "src/runtime/mod.rs"],
 [("PushVariable/PopVariable and vector conversions", "src/embed.rs, src/vec4.rs, src/mat4.rs"), ("function declaration macros", "src/macros.rs")],
 ["converted values"])

prop("C24", "Library functions on collections and strings match their model",
 "For every history of pushes, pops, inserts, removals, swaps, reversals, clears, key and membership queries, lengths, character and string functions, the library's arrays, objects and strings hold what a plain list, map and Unicode string would hold, and each function returns what that model returns, with out-of-range and empty cases reported as errors without changing the collection.",
 ["histories", "inputs"], "every sequence of operations on every collection content",
 "Only loading is tested.",
 ["src/dyon_std/mod.rs", "src/module.rs"],
 [("library functions over shared vectors and maps", "src/dyon_std/mod.rs")],
 ["values after each step"])

prop("C25", "Error reports point at the failing place and call path",
 "A load error names the file and points at line and column of the construct that caused it, a run-time error points at the construct that failed in the text of the function it belongs to and quotes that line, and an error passed on with `?` lists each place it passed. Where a report lists the functions being executed (every failure of a language construct does), it lists exactly them, outermost first, with the file each was loaded from, whatever calls had ended or failed and been caught before.",
 ["programs"], "every failing construct, at every position, line offset, call depth and module",
 "No test looks at an error message.",
 ["src/runtime/mod.rs", "src/module.rs", "src/lib.rs", "src/dyon_std/mod.rs"],
 [("source ranges carried by every syntax node and the call stack index", "src/ast/mod.rs, src/module.rs error_fnindex, src/runtime/mod.rs stack_trace")],
 ["error messages"])

prop("C26", "Build configurations give the same script behaviour",
 "Turning optional build features on or off (checked variable lookup, asynchronous threads) changes neither the verdict of loading nor the result, output or error of any script that does not use the missing feature; in particular unchecked variable lookup always finds the variable that checked lookup finds.",
 ["configurations", "programs"], "every script under every supported feature combination",
 "The tests run with one feature set only.",
 ["src/runtime/mod.rs", "src/ast/mod.rs", "src/threading.rs", "Cargo.toml"],
 [("variables resolved to stack offsets when loading", "src/ast/mod.rs resolve_locals"), ("spawn/join macros", "src/threading.rs")],
 ["event traces of the same programs under different builds"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
