#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

EV = "src/evaluate.c"; PA = "src/parser.m4"; LX = "src/lex.m4"

prop("E01", "Integer expressions have the value compiled C gives them",
 "For every expression over integer literals and variables of any integer type (char to long long, signed and unsigned) built from + - * / % << >> & ^ | ~ ! < <= > >= == != && || ?:, the comma operator, parentheses and casts, in which every sub-expression's exact mathematical value is representable in its C type, evaluating it gives the value a C compiler gives it. In particular C's precedence and associativity are followed, division and remainder truncate toward zero, and right shift of a negative value is arithmetic. The result is the same whether operands are literals, variables or sub-expressions, and whatever whitespace separates the tokens.",
 ["inputs", "programs"], "all such expressions of any depth, operand types, values and spacing",
 "testsuite/*.c evaluates one or two hand-picked expressions per operator, mostly with small positive int operands and no operator mixing; precedence, signs, widths and nesting are unbounded.",
 [PA, LX, EV, "src/c.lang"],
 [("grammar precedence levels", "parser.m4: multiplicative_expression .. conditional_expression"), ("operator evaluators on arbitrary precision integers", "evaluate.c: eval_add .. eval_logic_and"), ("live variable to integer", "evaluate.c: make_int_from_live_var")],
 ["printf output of a script", "REPL echo"])

prop("E02", "Operands are evaluated exactly when, and as often as, C evaluates them",
 "In any expression the operands of && || ?: and the comma operator are evaluated exactly as C prescribes: left to right, the unselected or short-circuited operand never, every other operand exactly once. Assignments, compound assignments, increments, array subscripts and calls evaluate each of their operands exactly once, however deeply they are nested. Thus the sequence of side effects (external calls made, variables changed) equals that of the compiled program whenever C fixes that sequence.",
 ["programs"], "all expressions mixing side-effecting operands with the sequencing operators",
 "logical_op_test.c and comma.c look at a few constant operands with no side effects in the skipped operand positions or nested subscripts.",
 [EV, PA, "src/tree.h"],
 [("short circuit", "evaluate.c: eval_logic_or/eval_logic_and/eval_infix"), ("sequence", "evaluate.c: eval_comma/eval_expr_list"), ("compound assignment desugaring", "tree.h: tree_make_binmod")],
 ["trace of putchar/printf calls of a script", "final variable values"])

prop("E03", "Storing, casting, passing or returning a value converts it as C does",
 "Whenever a value of one arithmetic type is stored into a variable, array element, pointed-to object or compound member of another arithmetic type - by initialisation, assignment, an explicit cast, passing it to a parameter or returning it - the stored value equals C's conversion of the source value: integers wrap modulo the width of the destination and keep their sign when widened, floating values truncate toward zero into integers and round when narrowed. Objects next to the destination are not modified. This holds for every pair of the types char, short, int, long, long long (signed and unsigned), float, double, for pointers to and from other pointer types, and for integers to and from pointers. (The sign of a floating zero is not preserved.)",
 ["inputs", "programs"], "all source/destination type pairs, storage paths and values whose conversion is defined",
 "casts.c and multi_assign.c try a handful of in-range values; the pair x path x value space is never crossed.",
 [EV, "src/c.lang", "src/genctypes.cpp"],
 [("assignment by destination type", "evaluate.c: assign_integer/assign_float/assign_ptr/eval_assign"), ("cast matrix", "evaluate.c: eval_cast")],
 ["printf output of destination bytes and values"])

prop("E04", "++, -- and compound assignment update and yield the right value",
 "For every modifiable lvalue (variable, array element, pointed-to object, compound member) of every scalar type, prefix and postfix ++ and -- and the operators += -= /= <<= >>= ^= (compound assignment: integers and pointers only) leave exactly the value C leaves there and yield exactly the value C yields: the old value for postfix, the new one otherwise. Integer objects wrap to the width of their type, and pointers move by the size of the element they point to. No other object changes.",
 ["inputs", "programs"], "all lvalue kinds x types x values x operators, including boundary values",
 "The six inc/dec tests each use one int variable near zero; other types, members, elements, pointers and wrap-around are not reached.",
 [EV, "src/tree.h", PA],
 [("increment/decrement", "evaluate.c: eval_inc/eval_post_inc/eval_dec/eval_post_dec/live_var_add/live_var_sub"), ("compound assignment", "tree.h: tree_make_binmod; parser.m4: assignment_expression")],
 ["printf output of a script"])

prop("C01", "Control flow follows C for every nesting of statements",
 "For any nesting of blocks, if/else chains, while loops, for loops (with or without a declaration, and with any of the step clause absent), break, return and expression statements, the statements executed and their order equal those of the compiled program. break leaves exactly the innermost enclosing loop from any depth of if or block, and return leaves exactly the current function from any depth of loops. After a loop, branch or block is left in any of these ways, the code that follows sees the variables of its own scope with their current values.",
 ["programs"], "all terminating programs over these statement forms, any nesting depth and iteration counts",
 "break.c, loops.c and if_stmts.c have one fixed nesting each.",
 [EV, PA],
 [("loops", "evaluate.c: eval_loop_for/eval_loop_while"), ("branches", "evaluate.c: eval_if"), ("break and return propagation", "evaluate.c: __evaluate, eval_break, eval_return, setjmp/longjmp in eval_fn_call")],
 ["trace printed by a script"], None,
 [("context stack", "stack of scopes pushed and popped by statements", "evaluate.c: cur_ctx")])

prop("C02", "Every function call behaves as an independent activation",
 "Calling a function defined in interpreted code evaluates the arguments in the caller, binds them by value to fresh parameters, runs the body with fresh automatic variables and yields the returned value converted to the return type, for any sequence of calls and any recursion or mutual recursion. The result of a call depends only on its arguments and the state the program can observe, never on which calls were made before, from where, or how they returned. Objects of the caller are changed only through pointers or globals, and the values a caller already obtained stay valid.",
 ["programs", "histories"], "all call graphs, recursion depths (up to hundreds), call orders and argument values",
 "factorial.c and fibonacci.c exercise one recursion pattern in which every return statement is only reached with values that hide stale results.",
 [EV],
 [("call protocol", "evaluate.c: eval_fn_call"), ("return", "evaluate.c: eval_return, __evaluate")],
 ["trace printed by a script"], None,
 [("activation scope", "parameters and locals of a call", "evaluate.c: E_CTX pushed by eval_fn_call")])

prop("C03", "Names resolve lexically; static and global objects persist",
 "A use of a name denotes the declaration that C's lexical scope rules select: the innermost enclosing block, loop, parameter list or file-level declaration, never a variable of the calling function. An object without an initialiser starts as zero. A shadowed object is untouched by uses of the shadowing one and becomes visible again when the inner scope ends. A static local is initialised exactly once, keeps its value between calls and is distinct from any same-named object; globals are shared by all functions.",
 ["programs", "histories"], "all arrangements of nested scopes, same-named declarations, static locals, enum constants and call orders",
 "fn_param_name_val_name_same.c and static_ints.c each contain one arrangement.",
 [EV],
 [("scope lookup", "evaluate.c: __resolve_identifier, map_identifier"), ("static locals", "evaluate.c: handle_static_decl, eval_evaluator_ctx")],
 ["trace printed by a script"])

prop("T01", "Type specifiers and typedefs denote the C type in any spelling",
 "Every order of every legal combination of type specifiers, type qualifiers and storage-class keywords denotes the same arithmetic type as in C, as observable by size, signedness, value range and floating behaviour, in declarations, casts, parameters, compound members and sizeof. A typedef name, including chains of typedefs and typedefs of pointers, arrays, compounds and function pointers, denotes the same type as its expansion wherever a type may be named.",
 ["inputs", "configurations"], "all permutations of legal specifier lists, qualifier placements and typedef chains",
 "Only a few fixed spellings occur in the tests; the specifier table is generated and has more than a hundred orderings.",
 ["src/c.lang", "src/genspecresolver.cpp", EV, PA, "src/typename.c", LX],
 [("specifier resolution trie", "generated spec-resolver.c from c.lang defspecifier"), ("typedef mapping", "evaluate.c: map_typedef/handle_typedef; typename.c")],
 ["sizeof and conversion results printed by a script"])

prop("T02", "Structs and unions have the platform ABI's size and member offsets",
 "For every struct or union whose members are scalars, pointers, function pointers, arrays or nested structs and unions (tagged or not, through typedefs, forward declared or self-referential), the size of the type and the offset of each member equal those the C compiler uses on this platform, so that an object can be exchanged with compiled code. sizeof agrees for the type, for an object, for a dereferenced pointer and for each member, and arrays of the type are laid out contiguously with that size.",
 ["inputs", "programs"], "all compound type definitions without bit-fields, any member types, order and nesting depth",
 "struct_torture.c, struct_array_alignment.c and union-struct.c contain a few fixed layouts.",
 [EV],
 [("layout computation", "evaluate.c: eval_decl_compound, get_alignment_for_type"), ("instantiation", "evaluate.c: instantiate_struct")],
 ["sizeof values and member addresses printed by a script", "bytes seen by an external C function"])

prop("T03", "Compound members, array elements and pointees are independent storage",
 "In any sequence of writes through any access path (member access, pointer member access, subscripts, dereference, address-of, aliases of the same object, nested compounds and arrays), a read yields the value of the last write to that storage, converted to the type read, exactly as in the compiled program. A write to one member or element changes no other object, except that union members share their bytes as the platform lays them out. Pointer arithmetic by subscript reaches exactly the element the compiler would reach, for every element type and index.",
 ["histories", "programs"], "all object graphs of nested compounds, arrays and pointers and all in-bounds access sequences",
 "simple_struct.c, array_torture.c and linked-list.c do a few fixed writes and reads.",
 [EV],
 [("member access", "evaluate.c: eval_comp_access, instantiate_struct_element"), ("subscript and dereference", "evaluate.c: eval_array_access, eval_deref, eval_addr")],
 ["memory contents printed by a script"])

prop("N01", "Enumeration constants have their C values",
 "Every enumerator without an explicit value is one more than its predecessor (the first is 0) and every enumerator with one has the value of that constant expression, including earlier enumerators, negative values and duplicates, for any number of enum declarations, named or anonymous, at any scope. Objects of an enumerated type hold and compare these values like compiled code.",
 ["inputs", "programs"], "all enumerator lists and their uses in expressions, array sizes and comparisons",
 "basic_enum.c has one list.",
 [EV, PA], [("enumerator evaluation", "evaluate.c: eval_enumerator")], ["values printed by a script"])

prop("L01", "Literals denote exactly the values and bytes C gives them",
 "Decimal, octal and hexadecimal integer literals, decimal floating literals with a fraction, character literals (plain characters and the escapes \\n \\r \\\\) and string literals (plain bytes and the escapes \\n \\t \\\" \\\\ and octal escapes) denote exactly the value or the byte sequence a C compiler gives them. String literals passed to external functions, stored in pointers, or used repeatedly always present those same bytes with a terminating NUL. Comments and blank lines anywhere between tokens change nothing.",
 ["inputs"], "all literal values and all byte strings in these notations",
 "The tests use a dozen plain literals.",
 [LX, PA, "src/util.c", EV], [("literal lexing", "lex.m4 rules for integers, floats, chars and str_lit"), ("string buffer", "lex.m4: sl_append_str/sl_append_char; util.c")], ["bytes printed by a script"])

prop("F01", "External C functions receive and return exactly the values C would pass",
 "A call to a function of a loaded C library with any prototype over integer, floating and pointer types, including variadic functions, delivers to the callee exactly the argument values a compiled caller would deliver and gives the caller exactly the returned value, for any mix and number (up to 20) of arguments and any form of argument (literal, variable, element, member, expression, string, address, nested call). Arguments to prototyped parameters are converted to the parameter type and arguments in the variable part undergo the default argument promotions. The same holds for calls made through function pointers held in variables, compound members or typedefed types.",
 ["inputs", "programs"], "all signatures over these types with up to 20 parameters, all argument values and argument forms",
 "The tests call a few libc functions, almost always with int or char * arguments; no test checks what the callee received.",
 ["src/function-call.c", EV, "src/genffitypes.cpp", "src/c.lang"],
 [("argument marshalling", "function-call.c: do_ext_call, push_arg"), ("symbol resolution", "evaluate.c: eval_ext_func, eval_fn_call")],
 ["argument values logged by a generated C library", "return values printed by the script"])

prop("F02", "External variables are shared with the library, in both directions",
 "An extern declaration of a variable, array (with or without its size), pointer, compound or function pointer defined in a loaded library gives access to that very object: what the library stores is read by the script, what the script stores is read by the library, in any interleaving, and neighbouring objects are unaffected. Repeating the declaration does not change anything.",
 ["histories"], "all interleavings of script and library accesses to external objects of every scalar type and arrays of them",
 "No test in the suite writes an external variable.",
 [EV], [("extern objects", "evaluate.c: handle_extern_decl, resolve_symbol")], ["values logged by a generated C library and printed by the script"])

prop("F03", "Interpreted functions work as C callbacks",
 "The address of a function defined in interpreted code can be passed to external C code and called by it any number of times, re-entrantly and with any parameter types among the integer, floating and pointer types: each invocation receives exactly the values the C code passed and the C code receives exactly the value the function returned. Effects of the callback on globals and on memory it is given a pointer to are visible to both sides afterwards.",
 ["programs", "histories"], "all callback signatures with up to 8 scalar parameters, call sequences and nestings (script - library - script)",
 "function_pointer.c only calls void callbacks with one or two ints.",
 ["src/function-call.c", EV], [("closure entry", "function-call.c: closure_entry, get_entry_point_for_fn"), ("address of function", "evaluate.c: handle_addr_fn_def")], ["values logged by a generated C library and printed by the script"])

prop("G01", "Garbage collection never changes what a program does",
 "Whatever the number and timing of garbage collections during a run, a program's output and exit status are the same: no reachable object, scope, string, pending argument, partial expression result or callback is reclaimed or altered by a collection. This holds for scripts and for sessions at the prompt, at every allocation point at which a collection can happen.",
 ["schedules", "programs"], "all programs in the supported language x all placements of collections at allocation points",
 "A collection only happens every 2000 allocations, so a test run sees a handful of collection points, always the same ones.",
 ["src/gc.c", "src/gengc.cpp", EV, "src/function-call.c"],
 [("conservative mark and sweep", "gc.c: collect, mark_stack, mark_static, sweep"), ("generated marking", "gengc.cpp")],
 ["output of the same program under different collection schedules", "sanitizer reports"],
 "BIC_VERIF build define: collection interval taken from the environment",
 [("allocation table", "all live tree objects", "gc.c: allocs")])

prop("G02", "The interpreter never touches memory it does not own",
 "While parsing, evaluating, dumping or inspecting any program that itself has no undefined behaviour, the interpreter performs no out-of-bounds, use-after-free or double-free memory access, whatever the size of the program, the number of live objects and the timing of collections. In particular this holds when the number of live objects grows past any internal table size.",
 ["programs", "schedules"], "all supported programs, sizes and collection schedules",
 "The tests run without a memory checker, and are too small to make internal tables grow.",
 ["src/gc.c", EV, "src/function-call.c", PA, LX, "src/tree.h"],
 [("allocation table growth", "gc.c: extend_allocs, fixup_alloc_array"), ("lifetime of values", "evaluate.c: track_alloc, make_live_var")],
 ["AddressSanitizer reports on an instrumented build"], "BIC_VERIF build define: collection interval taken from the environment")

prop("G03", "Unreachable objects are reclaimed: loops and calls run in bounded memory",
 "When a program repeats the same loop body or the same call many times without keeping references, the interpreter's memory use stays below a bound that does not depend on the number of repetitions. This holds for any loop body or function body built from the supported statements.",
 ["programs"], "all loop and function bodies x repetition counts",
 "No test measures memory use.",
 ["src/gc.c", "src/gengc.cpp", EV], [("collection trigger and sweep", "gc.c: maybe_collect, sweep, dealloc_object")], ["peak resident memory for N and k*N repetitions"])

prop("R01", "The interactive prompt gives the same results as a script",
 "Entering declarations, assignments, expressions and external calls one line at a time has the same effects on program state as executing the same statements in a script, and after each expression line the prompt echoes its value: the number for integers, the fixed-point value for floating values, the quoted contents for character pointers, the names and values of the members for compounds. A line may use anything declared by earlier lines, any number of lines back, and evaluation of one line never disturbs the values of other variables. The same holds at the prompt that the statement <REPL>; opens inside a script, which resumes when that prompt ends.",
 ["histories"], "all sequences of supported statement lines",
 "decl.exp, infix.exp and chars.exp enter a few fixed lines.",
 ["src/repl.c", "src/pretty-printer.c", PA, EV], [("line evaluation", "repl.c: bic_repl, repl_parse_line"), ("echo", "pretty-printer.c")], ["REPL output per line"])

prop("R02", "The inspect command reports the object's real type, value, size and origin",
 "For any declared variable or function, the ?identifier command reports the identifier's type (including each level of pointer), its current value, its size as sizeof gives it, and the file and line of its declaration (the prompt counts as the file <REPL>, line 1); for functions it reports where they were declared; for unknown names it says the object was not found. Inspecting an identifier, alone on its line, never changes any program state and never ends the session.",
 ["histories", "inputs"], "all identifiers of all kinds of objects, at any point of a session",
 "Only the infix/decl expect scripts run the prompt; none checks inspection of more than one object.",
 ["src/inspect.c", "src/pretty-printer.c", "src/repl.c"], [("inspection", "inspect.c: inspect and helpers")], ["REPL output"])

prop("R03", "A syntactically wrong line is reported and leaves the session unchanged",
 "If a line entered at the prompt is not syntactically valid, the prompt reports an error, executes none of it (a line holds one statement), stays alive, and every later line behaves as if the wrong line had never been entered. Empty lines and lines holding only spaces or comments have no effect either.",
 ["histories", "inputs"], "all interleavings of valid lines and syntactically invalid lines",
 "No test enters an invalid line.",
 ["src/repl.c", PA, LX], [("line parsing", "repl.c: repl_do_parse, repl_parse_line"), ("error callback", "repl.c: replerror")], ["REPL output compared with the session without the invalid lines"])

prop("R04", "Completion offers exactly the matching names",
 "At the prompt, completing a prefix offers exactly the visible identifiers that start with that prefix, and after an expression denoting a compound (or a pointer to one) followed by . or -> exactly the members that start with the typed prefix; a unique match is inserted. (When no name matches, readline may offer file names instead.) Completion never changes program state and never ends the session, whatever has been typed.",
 ["inputs", "histories"], "all sets of declared names, member sets, prefixes and compound-valued expressions",
 "No test exercises completion.",
 ["src/repl.c", EV], [("identifier completion", "repl.c: bic_completion, do_identifier_completion"), ("member completion", "repl.c: do_compound_completion")], ["terminal output of a pty session after TAB keys"])

prop("R05", "Headers can be included at the prompt at any time, in any order",
 "After #include <header> is entered at the prompt, the functions, types, macros, enumeration constants and compound types the header (found on the system path or in a -I directory) provides can be used by every later line (macros whose expansion bic's language supports; headers that define no objects), and everything defined earlier - variables with their current values, and what other headers provided - remains usable, for any sequence of includes, also repeated ones. A startup file ~/.bic is executed before the first prompt as if its declarations and statements belonged to the session.",
 ["histories"], "all interleavings of include lines with other lines, over generated and system headers",
 "setup.exp/fileio.exp include one or two system headers once, at the start.",
 ["src/repl.c", "src/preprocess.c", EV, "src/typename.c"], [("include chain", "evaluate.c: eval_cpp_include; preprocess.c: run_cpp"), ("typenames of headers", "typename.c"), ("startup file", "repl.c: evaluate_startup_file")], ["REPL output"])

prop("X01", "Programs bic cannot run are rejected with a diagnostic, never mis-run or crash",
 "A script that is syntactically wrong is rejected without executing anything. A script that, when run, reaches a statement that uses an undeclared name, redeclares a name in one scope (also a compound tag, member or enumerator), assigns to or takes the address of a non-lvalue, calls with the wrong number of arguments, calls something that is not a function, dereferences or subscripts a non-pointer, accesses a member of a non-compound or one that does not exist, computes with a compound or void value, declares an object of an undefined compound type, or calls an unresolvable external function is stopped there: after executing exactly the statements before the offending one, with a message on standard error and a non-zero exit status. The same goes for scripts that do not exist or that the preprocessor rejects. Parsing arbitrary text never dies from a signal and ends: it is either accepted or rejected with a message. (Faults in code that is not executed need not be diagnosed; nor need pointer arithmetic and pointer conversions between unrelated types.)",
 ["inputs", "programs"], "all valid programs x all single faults of these kinds at any position; all byte strings up to a few kilobytes, for parsing",
 "Every test program is valid.",
 [EV, PA, LX, "src/cscript.c"], [("error exit", "evaluate.c: eval_die; cscript.c: cscripterror; lex.m4: lex_err")], ["exit status, stdout prefix and stderr of a script"])

prop("X02", "Diagnostics name the file and line of the offending code",
 "The message for a rejected program names the source file and line on which the offending statement or token stands, counted in the user's own file, whatever comments, blank lines, macros, conditional sections and #include directives precede it. For an error inside an included file (nested at any depth, also when included at the prompt) or ~/.bic, that file and the line in it are named. A statement written over several lines may be named by any of its lines; code in a macro is named by the use of the macro. For an identifier that cannot be resolved, on a line in which no macro, comment, string or run of blanks precedes it, the column is named too.",
 ["inputs", "programs"], "all placements of a fault in programs with arbitrary preceding layout",
 "Every test program is valid, so no location is ever printed.",
 [LX, PA, EV], [("line markers", "lex.m4: handle_line_marker, YY_USER_ACTION"), ("locus", "parser.m4: set_locus; evaluate.c: eval_die")], ["stderr of a script"])

prop("D01", "The syntax tree dump shows the program's actual structure",
 "For every syntactically valid program, the textual dump shows each construct of the source exactly once, with its kind, its operands in source order, literal values and names, nested as C's grammar (precedence, associativity, dangling else, declarator structure) prescribes, and then exits with status 0 without executing anything. Two programs that differ only in whitespace, line splices or comments have the same dump; redundant parentheses only add one-element expression lists. (Old-style parameter declarations and the static and * array parameter forms are not supported; unary minus shows as a negative literal or a subtraction from 0, x->m as (*x).m and x op= y as x = x op y.)",
 ["inputs", "programs"], "all syntactically valid programs of the supported grammar",
 "No test uses the dump.",
 [PA, "src/gendump.cpp", "src/tree-dump-primitives.h", "src/cscript.c"], [("generated dumper", "gendump.cpp"), ("tree construction", "parser.m4")], ["dump output of bic -T"])

prop("D02", "The graph dump is valid dot and equals the textual dump's tree",
 "For every syntactically valid program, the graph dump is a well-formed dot graph in which every edge joins declared nodes, and whose nodes (kind, values) and labelled edges are exactly those of the program's syntax tree as shown by the textual dump. Producing it executes nothing and exits with status 0.",
 ["inputs", "programs"], "all syntactically valid programs of the supported grammar",
 "No test uses the dump.",
 ["src/gendot.cpp", "src/tree-dump-primitives.h", "src/cscript.c"], [("generated dot dumper", "gendot.cpp")], ["dump output of bic -D -T"])

prop("S01", "Command line arguments and exit status pass through unchanged",
 "A script started with -s FILE ARGS... sees argc and argv holding exactly FILE followed by every argument byte for byte, in order, followed by a NULL pointer, also when arguments look like interpreter options, both at top level and as main's parameters. The process exit status is the value returned by main or by a top-level return, modulo 256, or the status given to exit, and 0 when the top level ends normally; everything printed is flushed.",
 ["inputs", "configurations"], "all argument vectors and all return values and ways to terminate",
 "The tests pass no arguments and ignore the exit status.",
 ["src/main.c", "src/cscript.c", EV], [("option parsing", "main.c: parse_args"), ("argument objects", "cscript.c: create_arguments"), ("exit status", "cscript.c: cscript_exit, evaluate_cscript")], ["argv printed by a script, process exit status"])

prop("S02", "Scripts run as preprocessed C, either from main or from top to bottom",
 "A script is preprocessed exactly as the system C preprocessor would (macros, conditionals, includes, also from -I directories), its top-level declarations and statements are executed in order (stray semicolons count as nothing), and if it defines main then main is called exactly once, after all top-level declarations took effect, with the number of parameters it declares (zero, one or two). A script that mixes top-level statements with a main function is rejected without executing anything.",
 ["inputs", "configurations"], "all arrangements of top-level declarations, functions, statements, macros, conditionals and includes",
 "The tests use plain main functions or plain top-level code, without user macros or own headers.",
 ["src/cscript.c", LX], [("script classification", "cscript.c: __evaluate_cscript, add_call_to_main"), ("preprocessing", "cscript.c: parse_cscript")], ["trace printed by a script, exit status"])

prop("S03", "Libraries named with -l are opened and resolved as the linker would",
 "Every library named by -l, as a path or by its bare name, in any number and order, is loaded, in that order, before the script runs and its functions and variables become callable and accessible; a symbol defined by several libraries resolves to the first one named, also when the interpreter's own libraries define it; a library that cannot be opened ends the program with a diagnostic and a non-zero status before anything is executed.",
 ["configurations"], "all sets and orders of libraries and symbol definitions",
 "No test passes -l.",
 ["src/main.c", EV], [("library loading", "main.c: open_library"), ("symbol lookup", "evaluate.c: resolve_symbol, eval_ext_func")], ["script output and exit status"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
