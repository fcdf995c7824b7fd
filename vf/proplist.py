prop("L01", "Expressions evaluate to the value the language defines",
     "For every well-typed expression over integers, floats and booleans, the program the compiler produces prints the "
     "value that the operators' meaning gives: precedence, wrap-around, promotion, casts, short circuit and evaluation "
     "once. This holds whether the operands are literals, variables or calls.",
     ["inputs", "programs"], "all expression trees over the primitive types, all operand values",
     SNIP, [FE + "parser.c", MI + "sema/binary.c", MI + "sema/unary.c", MI + "sema/cast.c", CG],
     [("operator typing", MI + "sema/binary.c"), ("expression emission", CG)],
     PBT, "30000 random typed expression programs per quick run; " + TRUST)

prop("L02", "Literals denote exactly the value written",
     "Every integer, float, character and string literal the language accepts has, at run time, exactly the value that "
     "was written, in every base, with every escape and at the limits of every type. A literal no type can hold is rejected.",
     ["inputs"], "all literal spellings: bases, separators, escapes, UTF-8, limits of the types",
     SNIP, [FE + "lexer.c", CO + "utils.c", MI + "sema/check.c", CG],
     [("literal parsing", FE + "lexer.c"), ("literal emission", CG)],
     PBT, "40000 random literals per quick run; " + TRUST)

prop("L03", "Statements run in the order the source prescribes",
     "For every nesting of conditionals, loops, switches, blocks, early exits, deferred statements and function calls, "
     "the statements execute exactly as often and in exactly the order the source prescribes, and each name means the "
     "innermost declaration in scope where it is written. Deferred statements run once, last first, on every way out of their block.",
     ["programs"], "all trees of control flow statements and the values that steer them",
     SNIP, [MI + "simplify/simplify.c", MI + "defer.c", MI + "sema/for.c", MI + "sema/switch.c", MI + "mem/manage.c", CG],
     [("lowering of loops and matches", MI + "simplify/simplify.c"), ("placement of deferred statements", MI + "defer.c")],
     PBT, "16000 random control flow programs per quick run, compared with an interpreter of the same tree; " + TRUST)

HARN = "property-based testing: random operation sequences on the real code in a sanitized harness, reference model as oracle, tape shrinking"
HTRUST = "sampled operation sequences; trusts the reference model, AddressSanitizer and UBSan, and that the harness uses the library the way the compiler does"
CSN = "the unit tests insert a few entries in one order; the collision, growth and reuse histories that matter are unbounded"

prop("C01", "Hash tables and hash maps hold exactly the entries put and not removed",
     "After any sequence of insertions, lookups, removals, clears and growth, with any hash function however badly it "
     "collides, the compiler's hash table and hash map find exactly the live entries with their latest value, report the "
     "right size and whether a key was new, and enumerate every live entry exactly once.",
     ["histories", "inputs"], "all operation sequences, element sizes, capacities and hash functions",
     CSN, [CO + "htable.c", CO + "htable.h", CO + "hmap.c", CO + "hmap.h"],
     [("linear probing, removal by moving back", CO + "htable.c"), ("robin hood map", CO + "hmap.c")],
     HARN, HTRUST, observe=["return values and enumeration order-free contents of the tables"])

prop("C02", "Memory from pools and dynamic arrays stays intact and exclusive",
     "Every block obtained from a memory pool (plain, tracked, or from a size cache) and every element of a dynamic array "
     "keeps its contents, aligned and disjoint from all other live blocks, until it is freed, returned to its cache, or the "
     "pool is reset, through any sequence of allocations, reallocations, returns and resets. Nothing is released twice or leaked.",
     ["histories", "inputs"], "all sequences of allocation operations and sizes",
     CSN, [CO + "mempool.c", CO + "mempool.h", CO + "array.c", CO + "array.h"],
     [("block lists, tracked list, caches", CO + "mempool.c"), ("growth", CO + "array.c")],
     HARN, HTRUST, observe=["contents of the blocks, sanitizer reports, pool statistics"])

prop("C03", "Interned strings are identical exactly when their text is equal",
     "Two strings interned in one pool, by whatever route (whole, sized, trimmed, concatenated, formatted, path join), have the "
     "same address exactly when their text is equal, and the address keeps holding that text; names generated as fresh differ "
     "from every name interned before.",
     ["histories", "inputs"], "all sequences of interning calls, including texts whose hashes collide",
     CSN, [CO + "strpool.c", CO + "strpool.h", CO + "hash.h"],
     [("lookup by hash and text", CO + "strpool.c")],
     HARN, HTRUST, observe=["addresses and text of interned strings"])

prop("C04", "Formatted output is exactly what its directives prescribe",
     "For every format, argument list and nesting of indentation, the text the compiler's formatter and string builder "
     "accumulate is exactly the concatenation the directives prescribe: numbers in full range, escaped and sized strings, "
     "indentation after each newline. Nothing is lost, repeated or reordered however long the output grows.",
     ["inputs", "histories"], "all formats, arguments, lengths and sequences of appends",
     CSN, [CO + "format.c", CO + "format.h", CO + "sb.c", CO + "sb.h"],
     [("directive interpreter and block list", CO + "format.c"), ("growth of the buffer", CO + "sb.c")],
     HARN, HTRUST, observe=["the accumulated text"])

prop("L04", "A call runs the function it names with the arguments given",
     "Every call runs exactly the function, overload, method or closure that the callee, the argument types and the scope select, "
     "binds each argument to its parameter (omitted ones to their default, variadic ones in order), and yields its result; "
     "recursion and nesting keep every activation's parameters apart, and a closure sees the values it captured.",
     ["programs"], "all sets of functions, overloads, default values, closures and call trees over them",
     SNIP, [MI + "sema/call.c", MI + "sema/function.c", MI + "sema/closure.c", MI + "simplify/simplify.c", FE + "ttable.c", CG],
     [("overload ranking", MI + "sema/"), ("default arguments", MI + "sema/call.c"), ("captures", MI + "sema/closure.c")],
     PBT, "9000 random programs of functions, overloads, methods, closures and variadics per quick run; " + TRUST)

prop("L05", "Structs, tuples and arrays are values made of their parts",
     "A struct, tuple or array holds in each field or element exactly what was last stored there. Copies made by assignment, "
     "initialization, passing or returning are independent of the original; passing by reference is not. Omitted fields get their "
     "default. Printing shows every part in order.",
     ["programs"], "all nestings of struct, tuple and array types and all histories of copies and updates",
     SNIP, [MI + "sema/struct.c", MI + "sema/tuple.c", MI + "sema/array.c", MI + "sema/member.c", MI + "sema/assign.c", MI + "simplify/simplify.c", CG],
     [("member access", MI + "sema/member.c"), ("aggregate emission", CG)],
     PBT, "8000 random histories over random aggregate types per quick run; " + TRUST)

prop("L13", "A program split over modules is the program its names say",
     "Whatever way its files are divided, nested in folders and import each other (without cycles), and whatever equal names they declare: each name in a file is its own declaration or the one it imports, by name, "
     "under another name, or through the alias or name of a module, whether that is a constant, variable, function with its overloads and default arguments, struct, class, base class, enum, union, exception or generic. "
     "What a module uses inside stays its own. A module reached by several imports or paths exists once: its variables are initialised before main, after those they use, and shared. A generic over equally named types of two modules is two instances. Private, unknown, "
     "not imported or twice imported names, missing files and cyclic imports are errors. Functions and types may be used before they are declared.",
     ["programs", "inputs"], "all acyclic divisions of programs into modules, sets of declarations and ways to import them",
     "the tests import standard modules only; which declaration a name means depends on the import, on names equal elsewhere and on the place the name is used from",
     ["src/cxy/driver/driver.c", FE + "module.c", FE + "parser.c", MI + "bind/discover.c", MI + "bind/resolve.c", MI + "bind/scope.c", MI + "sema/path.c", MI + "sema/function.c", MI + "mangle.c"],
     [("modules and their imports", "src/cxy/driver/driver.c"), ("names through modules", MI + "sema/path.c"), ("scopes", MI + "bind/scope.c")],
     PBT, "5000 random projects of one to four modules and a main file per quick run, one in four to be rejected (and accepted without the offence); " + TRUST)

prop("L14", "Operators on user types call the overload they name",
     "An operator whose left operand is a struct or class calls that type's overload for it, the operands grouped by the precedence of the language, left to right, whatever the form of the operands: the overload the "
     "type of the right operand selects, inherited, overridden or virtual as methods are, on the const version for a const object. `!!` decides if, while, ?: and !; `()` makes objects callable; `[]` reads and "
     "`[]=` writes what is indexed, `a.[i] op= x` being `a.[i] = a.[i] op x`; `..` makes for loops visit what its closure returns until it returns none; comparing with null never calls an overload.",
     ["programs", "inputs"], "all sets of overloads, expressions over them and operand values",
     "the tests overload a few operators once each and apply them to variables; which overload runs depends on operator, operand types, constness, inheritance and on how operands nest",
     [MI + "sema/binary.c", MI + "sema/assign.c", MI + "sema/unary.c", MI + "sema/index.c", MI + "sema/call.c", MI + "sema/for.c", MI + "sema/function.c", MI + "sema/node.c", FE + "parser.c"],
     [("binary operators", MI + "sema/binary.c"), ("truth, index and call operators", MI + "sema/node.c"), ("selection of the overload", MI + "sema/function.c")],
     PBT, "8000 random programs per quick run, each overload recognisable by the number it computes; " + TRUST)

prop("M01", "Objects live exactly as long as something refers to them",
     "A class object is destroyed, running its deinit exactly once, as soon as no variable of a function or module, parameter, field, struct or tuple refers "
     "to it any more, and never before: through any sequence of sharing, linking, reassignment, passing, returning, moving, "
     "deletion and every way out of a scope. Nothing is used after it was freed or freed twice.",
     ["programs", "histories"], "all acyclic object graphs and all control flow paths that build and drop them",
     SNIP, [MI + "mem/manage.c", MI + "mem/finalize.c", MI + "simplify/simplify.c", CG, "src/cxy/runtime"],
     [("variable states, drop flags, copies", MI + "mem/manage.c"), ("destructors and copy functions", MI + "mem/finalize.c")],
     PBT, "16000 random object histories per quick run under AddressSanitizer, destroyed set compared with reachability after every statement; "
     "temporaries, closures capturing objects and arrays of objects are outside the domain (known findings); " + TRUST,
     observe=["output and exit status of the compiled program", "AddressSanitizer reports"])

prop("L06", "A call on an object runs the override of its class",
     "Through a base-class reference, a call to a virtual function runs the nearest override of the object's own class, whether it "
     "is written obj.f, this.f or f alone; other functions go by the static type and super.f runs the base's. Construction gives "
     "every field of every level its default or what the constructors store, upcasts and downcasts keep the object's fields, and "
     "deinit runs at every level.",
     ["programs"], "all class hierarchies with virtual, overriding and plain functions, and all histories of objects of them",
     SNIP, [MI + "sema/class.c", MI + "sema/inheritance.c", MI + "bind/resolve.c", MI + "simplify/simplify.c", CG],
     [("virtual tables", MI + "sema/inheritance.c"), ("virtual dispatch", MI + "simplify/simplify.c"), ("layout", CG)],
     PBT, "12000 random class hierarchies and object histories per quick run; " + TRUST)

prop("L07", "Optionals and tagged unions hold exactly what was stored",
     "An optional is none until given a value and afterwards yields exactly that value until reassigned; tests, defaults (`||`) and "
     "conditional member access act on whether it holds one. A tagged union holds the last value stored with its type; a match over it "
     "runs exactly the case of that type, with the value bound, else the default case.",
     ["programs"], "all optional and union types over primitive and aggregate payloads, all histories of assignments, copies, calls and tests",
     SNIP, [MI + "sema/cast.c", MI + "sema/match.c", MI + "sema/unary.c", MI + "sema/binary.c", MI + "simplify/simplify.c", CG, "src/cxy/runtime/builtins.cxy"],
     [("union values and casts", MI + "sema/cast.c"), ("match", MI + "sema/match.c"), ("Optional", "src/cxy/runtime/builtins.cxy")],
     PBT, "8000 random histories of optionals and unions per quick run; " + TRUST)

prop("L08", "An exception goes to the nearest catch and nowhere else",
     "A raise ends its function and every caller that does not catch, up to the nearest enclosing catch, which sees that exception's "
     "message and yields its default, its block's value, or jumps or raises on. On the way every deferred statement runs once and "
     "every owned object is destroyed once. When nothing is raised the catch has no effect and the call's value is kept.",
     ["programs", "faults"], "all call trees of raising functions with every form of catch, inside all control flow",
     SNIP, [MI + "sema/exception.c", MI + "sema/binary.c", MI + "sema/call.c", MI + "simplify/simplify.c", MI + "mem/manage.c", CG, "src/cxy/runtime/builtins.cxy"],
     [("catch expansion", MI + "sema/binary.c"), ("bubbling of raising calls", MI + "sema/call.c"), ("cleanup on jumps", MI + "mem/manage.c")],
     PBT, "14000 random stacks of raising functions per quick run; raising calls in conditionally evaluated operands and objects "
     "returned through a catch are outside the domain (known findings); " + TRUST)

CSERV = ("property-based testing: generated sources compiled by forked compilers built with AddressSanitizer and UBSan, "
         "acceptance and diagnostics judged by an oracle, tape shrinking")
prop("F01", "The front end survives every input and rejects what is not a program",
     "For every sequence of bytes given as a source file the lexer, parser and preprocessor end normally: no crash, hang, or memory error. "
     "A syntactically valid program is accepted, however deeply its blocks and expressions nest. A program with an unbalanced bracket, "
     "or a malformed or unterminated literal or comment, is rejected with an error. Every diagnostic gives a position inside the file "
     "and quotes the source found there.",
     ["inputs"], "all byte sequences: mutated sources, token soups, raw bytes, deep nesting, valid programs and single-token damage to them",
     "the tests only feed the front end a few well-formed programs and small lexer snippets",
     [FE + "lexer.c", FE + "parser.c", FE + "ast.c", CO + "log.c", MI + "preprocess/preprocessor.c"],
     [("tokens", FE + "lexer.c"), ("error recovery", FE + "parser.c"), ("quoting of sources", CO + "log.c")],
     CSERV, "14000 random sources per quick run; nesting up to 200; trusts the sanitizers and the model of positions and quotes",
     observe=["exit status of the compiler", "diagnostics it prints"])
prop("F03", "A program that breaks a rule of the language is rejected where it breaks it",
     "Of two programs that differ in one statement or declaration, the valid one is compiled without an error and the one which breaks a rule "
     "is rejected, with the first error located at that statement, wherever the statement stands (function, method, constructor, generic, closure, "
     "loop, branch, switch or match case, catch block, defer). Rules: the types of initializers, assignments, arguments, returned and yielded "
     "values, default values, fields, array elements, ternary arms, conditions and operands must be compatible (narrowing, mixing strings, structs, booleans, "
     "optionals, unrelated or derived classes are not); calls have the right number of arguments and types; names, members and types are declared and in scope; "
     "nothing is declared twice in a scope; constants (variables, their fields and nested fields, loop constants, const methods) do not change; "
     "break and continue stand in a loop; raising calls are caught or their function raises; catch applies to raising calls only; "
     "this, super, ex! and yield have their surroundings; deleted objects are not used; switch and match cases fit their subject and do not repeat; "
     "and the compiler does not crash on either program.",
     ["inputs"], "all programs and all places in them at which one rule is broken",
     "the tests compile valid programs and a handful of invalid ones; an unsound type checker accepts programs that then fail in the C compiler or misbehave at run time",
     [MI + "sema/check.c", MI + "sema/call.c", MI + "sema/assign.c", FE + "types.c", MI + "bind/resolve.c", FE + "defines.h" if False else MI + "sema/binary.c"],
     [("assignability", FE + "types.c"), ("scopes", MI + "bind/resolve.c"), ("checks of statements", MI + "sema/check.c")],
     CSERV, "30000 pairs of programs per quick run over 55 rules and 15 kinds of place; trusts the generator's rules of the language",
     observe=["exit status of the compiler", "place of the first error it prints"])
prop("S01", "Vector behaves like a sequence and owns its elements",
     "A Vector of any element type (integers, floats, booleans, strings, String objects, structs, tuples, objects) with any initial capacity "
     "behaves like a sequence under push, pop, shift, index reads and writes, resize, shrink, iteration (values with their index), each, "
     "accumulate, filter, map, find, indexOf, size, empty and formatting, for every sequence of operations; its capacity is never below its size. "
     "An object lives exactly as long as a vector or variable refers to it: elements that are removed, overwritten, cut off by resize or "
     "still in the vector at its end are released once.",
     ["histories"], "all sequences of operations on vectors of all element types and capacities",
     "the tests push and pop two or three integers; growth from small capacities, shifting, resizing and objects as elements are not covered",
     [SL + "vector.cxy", "src/cxy/runtime/builtins.cxy"],
     [("class Vector", SL + "vector.cxy")],
     PBT, "5000 random histories of up to 30 operations per quick run; trusts the C compiler and the list it is compared with",
     observe=["standard output of the program", "number of live objects"])
prop("S02", "HashMap and HashSet behave like a dictionary and a set and own their entries",
     "A HashMap or HashSet of any key type (integers, strings, String objects, structs with their own hash and equality) and value type, with the "
     "default or a user-supplied hasher and equality (however badly it collides) and any initial capacity, behaves like a dictionary or set under insert (with and "
     "without replacing), index writes and reads, get, contains, remove, clear, size, empty, iteration, each and map, for every sequence of "
     "operations: no entry is lost, duplicated or resurrected while the table grows and shrinks. Objects held as values live exactly as long as "
     "an entry or variable refers to them.",
     ["histories"], "all sequences of operations on maps and sets of all key types, value types and hashers",
     "the tests insert two strings; collisions, growth, removal and iteration of larger tables are not covered",
     [SL + "hash.cxy", "src/cxy/runtime/builtins.cxy"],
     [("class HashMap", SL + "hash.cxy"), ("hash functions", "src/cxy/runtime/builtins.cxy")],
     PBT, "5000 random histories of up to 40 operations per quick run; trusts the C compiler and the dictionary it is compared with",
     observe=["standard output of the program", "number of live objects"])
prop("L09", "Values are formatted as their types say",
     "A value of any formattable type (integers of every width, floats, booleans, characters of one to four bytes, strings, String objects, enums, tuples, "
     "structs, classes, optionals, unions, arrays, in any nesting, constant or not) has one text, built from the texts of its parts: fields by name with strings and characters quoted, "
     "enums by their str attribute or Type.Member, empty optionals and null objects as null, unions as the member they hold, and whatever a type's own str operator writes. "
     "println, interpolated strings, appending to a String and formatting inside another value all give that text, and nothing else.",
     ["programs", "inputs"], "all types, values of them and ways to write them",
     "the tests print a few integers and strings; each type instantiates its own formatting code, so unseen combinations are unseen code",
     ["src/cxy/runtime/builtins.cxy", MI + "eval/comptime.c", MI + "sema/tuple.c", FE + "strings.c", CG],
     [("OutputStream and println", "src/cxy/runtime/builtins.cxy"), ("type queries at compile time", MI + "eval/comptime.c")],
     PBT, "8000 random programs per quick run, types nested up to 3 deep; structs with array fields and optionals of characters are outside the domain; " + TRUST)
prop("L10", "Generic declarations behave like their instances written by hand",
     "Every instance of a generic function, method, struct or class behaves as the declaration with its type arguments written in place of the parameters, whatever other instances the program has: "
     "explicit, inferred, partly inferred and default type arguments name the instance they say; recursive, nested and variadic generics, const and static-like generic methods, generic base classes, "
     "compile-time branches on a parameter and instances over structs, tuples and other instances each keep their own types, sizes, fields, overloads and output.",
     ["programs", "inputs"], "all generic declarations and the type arguments they are given",
     "the tests instantiate a handful of generics once each; instances interact through shared nodes, name mangling and the type table, which only shows when a program has many of them",
     [MI + "sema/generics.c", MI + "sema/struct.c", MI + "sema/class.c", MI + "sema/call.c", FE + "ttable.c", MI + "shake/shake.c", MI + "mangle.c"],
     [("instantiation and inference", MI + "sema/generics.c"), ("identity of instances", FE + "ttable.c"), ("names of instances", MI + "mangle.c")],
     PBT, "6000 random programs per quick run, expected output computed instance by instance; " + TRUST)

prop("L11", "Compile-time code computes what it says",
     "Compile-time variables, expressions, assignments, #if and #for blocks, loops over ranges, strings and arrays, mk_str! and user-defined macros evaluate in the order "
     "written and to the value their operators and operands mean: integers exactly over 64 bits, floats, booleans, characters and strings, with the precedence and grouping of run-time "
     "expressions. Exactly the branches taken and the iterations prescribed contribute code, a name means its innermost declaration, and a macro's argument is one operand of its expansion.",
     ["programs", "inputs"], "all trees of compile-time statements and expressions and their values",
     "the tests fold a few constants and unroll two loops; the evaluator is a second implementation of the language's operators, which no sample ties to the first",
     [MI + "eval/binary.c", MI + "eval/unary.c", MI + "eval/literal.c", MI + "eval/for.c", MI + "eval/eval.c", MI + "eval/macro.c", MI + "preprocess/preprocessor.c", MI + "preprocess/evaluate.c"],
     [("evaluation of operators", MI + "eval/binary.c"), ("unrolling of loops", MI + "eval/for.c"), ("expansion of macros", MI + "preprocess/preprocessor.c")],
     PBT, "12000 random programs per quick run; " + TRUST)

prop("L12", "Types answer compile-time questions truthfully",
     "At compile time a type is equal to another exactly when they are the same type (through aliases, type parameters, typeof! and type transformations); the is... predicates hold exactly for the types "
     "they name; membersCount, typeat!, indexof!, elementType, targetType, pointedType, returnType, baseType, sizeof!, has_member!, has_type!, is_base_of!, the names, types and attributes of members and filtered tuple "
     "transformations report what the declarations say; generic and variadic functions that branch on them compile the branch for the type of each argument.",
     ["programs", "inputs"], "all types and questions about them",
     "the tests ask a few questions about a few types; every question has its own code for every kind of type",
     [MI + "eval/comptime.c", MI + "eval/macro.c", MI + "eval/xform.c", MI + "eval/eval.c", FE + "types.c", FE + "ttable.c"],
     [("predicates", MI + "eval/comptime.c"), ("type macros", MI + "eval/macro.c"), ("identity of types", FE + "ttable.c")],
     PBT, "8000 random programs per quick run; questions with no documented answer (such as isSigned of a float or isNumber of a char) are outside the domain; " + TRUST)

prop("S03", "Strings, String objects and views behave like sequences of bytes",
     "A String behaves like a mutable sequence of bytes under construction, appending of values, trimming, clearing, reserving, iteration and indexing; all variables that refer to it see its changes; "
     "str() is terminated where it ends. A __string view behaves like the bytes it covers and nothing after them, under substr, trimming, indexOf, rIndexOf, find, rfind, startswith, endswith, conversion to "
     "numbers and copying. Comparison of strings, Strings and views is one total order (shorter first, then by bytes), equality is equality of contents, and equal contents hash alike.",
     ["histories"], "all sequences of operations on strings of any contents and length",
     "the tests append and trim one string each; views that are not terminated, aliases, empty and long strings are not covered",
     ["src/cxy/runtime/builtins.cxy", MI + "sema/for.c", MI + "sema/generics.c"],
     [("String and __string", "src/cxy/runtime/builtins.cxy")],
     PBT, "4000 random histories of up to 40 operations per quick run; searching for the empty string and appending a String to itself are outside the domain; trusts the C compiler and Python's strings",
     observe=["standard output of the program"])
