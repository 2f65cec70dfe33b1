#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})
C = "dice-compiler/src/"
V = C + "visitor/"
S = "dice-syntax/src/"
K = "dice-core/src/"
B = "dice-bytecode/src/"
NOEXEC = ("The repository's runnable tests cover only the lexer and the line index; nothing compiles a program, and "
          "the end-to-end scripts cannot run at this commit because the runtime crate does not build. ")

prop("P01", "Every source text gets either a program or a diagnostic, never a crash",
     "For every source text, compiled as a script or as a module, the compiler terminates and returns either a compiled program "
     "or one diagnostic carrying an error code. It never panics, aborts or hangs, whatever characters, tokens or "
     "constructs the text contains (nesting depth within reason).",
     ["inputs", "programs"], "All texts, valid or not; both source kinds.",
     NOEXEC + "Totality quantifies over all texts; a handful of well-formed samples says nothing about the rest.",
     [S + "parser/mod.rs", S + "parser/rules.rs", S + "lexer/mod.rs", S + "lexer/token.rs", C + "compiler.rs", V],
     [("token rule lookup returning an error", S + "parser/rules.rs ParserRules::for_token"),
      ("Result-returning visitors", V)],
     ["Compiler::compile_source", "Parser::parse"])

prop("P02", "Compiled code keeps the operand stack balanced on every path",
     "For every accepted program, along every path through each compiled unit the operand stack never underflows, has one depth per "
     "program point, and holds exactly one value when the unit or function finishes, however it finishes "
     "(falling off the end, returning, propagating an error, or leaving a loop in the middle of an expression).",
     ["programs", "histories"], "All accepted programs, all branch outcomes in every function body.",
     NOEXEC + "The interpreter's own balance assertion only fires on the path a run takes; the guarantee is over all paths of all programs.",
     [V, C + "assembler.rs", C + "scope_stack.rs", C + "compiler_stack.rs"],
     [("temporary counting", C + "compiler_stack.rs temporary_count"), ("jump patching", C + "assembler.rs patch_jump"),
      ("pop after each statement", V + "expr_block.rs")],
     ["Bytecode::cursor", "Bytecode::constants"],
     [("temporary_count", "operands pending below the expression being compiled", C + "compiler_stack.rs")])

prop("P03", "Compiled code is well formed: jumps, slots, constants and captures resolve",
     "For every accepted program, every jump lands on an instruction boundary of its own unit, every operand names an existing "
     "constant of the kind its instruction needs, an existing local slot or an existing captured variable, and each closure's capture list "
     "refers only to variables its creator has. Reading the code back through the code cursor yields exactly the instructions and operands encoded in it.",
     ["programs"], "All accepted programs, every unit and nested function, every instruction.",
     NOEXEC + "Encodings are checked nowhere; an operand off by one only shows on the program that exercises it.",
     [C + "assembler.rs", C + "scope_stack.rs", C + "compiler_stack.rs", C + "upvalue.rs", B + "lib.rs", B + "cursor.rs", B + "instruction.rs"],
     [("operand encoding", C + "assembler.rs"), ("decoding", B + "cursor.rs")],
     ["Bytecode::cursor", "Bytecode::slot_count", "Bytecode::upvalue_count", "Bytecode::constants"])

prop("P04", "Expressions compute the source's value, each operand once and in order",
     "Running the compiled form of any expression yields the value the source denotes: literals keep their value, each operator applies to its own "
     "operands in their written roles, and every operand is evaluated exactly once, left to right (a call's target before its arguments, "
     "a pipeline's function before its argument, a range loop's end before its start). Assignments, compound assignments, list and "
     "object literals, indexing and type tests act only on the place or value they name.",
     ["programs", "inputs"], "All expressions, nested arbitrarily, under all values of their inputs.",
     NOEXEC + "Semantic preservation is a relation between all programs and their compiled forms.",
     [V + "expr_binary_op.rs", V + "expr_prefix_op.rs", V + "expr_assignment.rs", V + "expr_fn_call.rs", V + "expr_index.rs",
      V + "expr_is.rs", V + "literal_list.rs", V + "literal_object.rs", V + "literal_int.rs", V + "literal_float.rs", V + "literal_string.rs", C + "assembler.rs"],
     [("operator emission", V + "expr_binary_op.rs"), ("constant pool", C + "assembler.rs make_constant")],
     ["Compiler::compile_source then execution of the returned Bytecode"])

prop("P05", "Names resolve lexically and distinct live variables never share storage",
     "Every use of a name refers to the innermost enclosing declaration visible at that point, otherwise to an enclosing function's variable, "
     "otherwise to a global; leaving a block ends its names and restores what they shadowed. Two variables that are alive "
     "at the same time never share storage, so writing one never changes another.",
     ["programs"], "All nestings of blocks, loops, functions and shadowing declarations.",
     NOEXEC + "Slot reuse bugs need a particular nesting of scopes to show.",
     [C + "scope_stack.rs", V + "literal_variable.rs", V + "decl_var.rs", V + "expr_block.rs", C + "compiler_stack.rs"],
     [("scope stack search, innermost first", C + "scope_stack.rs local"), ("slot allocation", C + "scope_stack.rs add_local")],
     ["execution of the returned Bytecode"])

prop("P06", "Only declared mutable variables can be reassigned",
     "A program that assigns (plainly or with a compound operator) to an immutable variable, parameter, loop variable, imported name, function or class is "
     "rejected with the reassignment error, wherever the assignment occurs, including inside nested closures; assigning to an undeclared name or "
     "to something that is not an assignable place is rejected with its own error. Every assignment to a variable declared mutable is accepted and takes effect.",
     ["programs"], "All declaration kinds x all assignment operators x all nesting depths of blocks and closures.",
     NOEXEC + "The rule is a universal negative over programs.",
     [V + "expr_assignment.rs", V + "decl_var.rs", C + "scope_stack.rs", C + "upvalue.rs", C + "compiler_stack.rs", K + "error/codes.rs"],
     [("mutability flag on locals and captures", C + "scope_stack.rs is_mutable, " + C + "upvalue.rs is_mutable")],
     ["Compiler::compile_source error_code"])

prop("P07", "Closures capture variables by reference and keep them alive",
     "A closure reads and writes the very variable it captured: the defining scope and all closures over it see each other's writes, at any depth of function nesting. "
     "A captured variable outlives its scope however that scope is left (normal end, return, error propagation, break, continue), and each entry of a scope or loop iteration creates fresh variables.",
     ["programs", "histories"], "All capture patterns, nesting depths and exits.",
     NOEXEC + "Whether a capture dangles depends on the exit taken and on later calls.",
     [C + "compiler_stack.rs", C + "upvalue.rs", V + "expr_block.rs", V + "expr_for.rs", V + "expr_range_loop.rs", V + "expr_return.rs", V + "expr_break.rs", V + "expr_continue.rs", C + "assembler.rs"],
     [("capture resolution", C + "compiler_stack.rs resolve_upvalue"), ("closing captures at scope end", V + "expr_block.rs visit_close_upvalues")],
     ["execution of the returned Bytecode"])

prop("P08", "Loops and early exits run exactly the iterations and statements they should",
     "`loop`, `while` and `for` (over ranges and iterators) run their body once per iteration with the right loop variable; `break` leaves and `continue` restarts the innermost enclosing loop "
     "from anywhere in its body, and the loop itself yields unit. Code after an exit in the same body does not run, and everything around the loop is undisturbed.",
     ["programs", "inputs"], "All loop kinds, nestings, and positions of break and continue, under all branch outcomes.",
     NOEXEC + "Exits from within nested expressions and loops form an unbounded family.",
     [V + "expr_loop.rs", V + "expr_while.rs", V + "expr_for.rs", V + "expr_range_loop.rs", V + "expr_break.rs", V + "expr_continue.rs", C + "scope_stack.rs"],
     [("loop entry and exit points", C + "scope_stack.rs")],
     ["execution of the returned Bytecode"])

prop("P09", "Conditionals, && || ??, and null propagation evaluate only what they must",
     "`if`/`else if`/`else` evaluates its condition and exactly one branch; `&&`, `||` and `??` evaluate their right side only when the left does not decide; and their results are as the language defines. "
     "When a `?` meets null, the rest of that same access/call chain, including its arguments and indexes, is skipped and the chain yields null, while everything outside the chain is evaluated as usual.",
     ["programs", "inputs"], "All nestings of chains, arguments, operands and conditionals; null and non-null at every point.",
     NOEXEC + "Short-circuit errors appear only for particular nestings and values.",
     [V + "expr_binary_op.rs", V + "expr_if.rs", V + "expr_null_propagate.rs", V + "syntax_node.rs", V + "expr_fn_call.rs", V + "expr_index.rs", C + "scope_stack.rs"],
     [("call-chain exit points", V + "syntax_node.rs enter_call/exit_call")],
     ["execution of the returned Bytecode"])

prop("P10", "Error propagation `!!` and `or` handling act on exactly the failed result",
     "`e!!` yields the payload of a successful result and otherwise immediately returns that same failed result from the enclosing function or method, at any depth of nested expressions. "
     "`e or x { ... }` evaluates e once and yields its payload on success, otherwise runs the block with x bound to the error payload and yields the block's value.",
     ["programs", "inputs"], "All placements inside operators, calls, literals, loops and closures; success and failure at each.",
     NOEXEC + "The early return must unwind whatever the surrounding expression has pending.",
     [V + "expr_error_propagate.rs", S + "parser/mod.rs", V + "expr_return.rs", V + "expr_block.rs"],
     [("propagation jump and unwind", V + "expr_error_propagate.rs"), ("lowering of or", S + "parser/mod.rs error_coalesce")],
     ["execution of the returned Bytecode"])

prop("P11", "Control keywords are accepted exactly where they are meaningful",
     "`return` and `!!` are accepted only inside functions and methods (a bare `return` also in constructors), `break` and `continue` only inside a loop of the same function, `super` access only in methods and constructors, "
     "a `super` call only where there is a receiver, and `export` only at the top level of a module; any other use is rejected with the error code for that rule. No well-placed use is rejected.",
     ["programs"], "All constructs in all nestings of functions, loops, classes, blocks; scripts and modules.",
     NOEXEC + "Placement is a property of every nesting, in both directions.",
     [V + "expr_return.rs", V + "expr_break.rs", V + "expr_continue.rs", V + "expr_error_propagate.rs", V + "expr_super_access.rs", V + "expr_super_call.rs", V + "decl_export.rs", K + "error/codes.rs"],
     [("compiler kind and scope kind tests", C + "compiler_stack.rs CompilerKind")],
     ["Compiler::compile_source error_code"])

prop("P12", "Functions and classes are visible throughout their block, once each",
     "Functions and classes declared in a block can be referred to from other functions in it regardless of order, while using one directly before its declaration runs is rejected. "
     "Declaring the same function or class name twice in one block, or reusing a name already taken there, is rejected, as are duplicate parameter names; the same name in a different block is always fine.",
     ["programs"], "All orders and nestings of declarations and uses.",
     NOEXEC + "Order independence is a statement about all permutations.",
     [C + "decl_scan.rs", V + "decl_fn.rs", V + "decl_class.rs", V + "literal_variable.rs", V + "literal_anonymous_fn.rs", K + "error/codes.rs"],
     [("declaration pre-scan", C + "decl_scan.rs"), ("initialised flags", C + "scope_stack.rs State")],
     ["Compiler::compile_source error_code", "execution of the returned Bytecode"])

prop("P13", "Classes: methods, statics, constructors, inheritance and super behave",
     "Members with a `self` receiver become methods bound to the instance, members without become static members of the class, and `new` constructs and yields the instance. Derived classes inherit methods and may override them, "
     "`super` reaches the base class's version with the same receiver, and a derived constructor must call `super` first. Malformed members (receiver with a type, `new` without receiver or with a return type or value) are rejected with their own error codes.",
     ["programs"], "All class bodies, inheritance chains and member kinds.",
     NOEXEC + "Class shapes, chains and member orders are unbounded.",
     [V + "decl_class.rs", V + "decl_op.rs", V + "expr_super_access.rs", V + "expr_super_call.rs", V + "expr_block.rs", V + "expr_return.rs", C + "compile_fn.rs"],
     [("member kind selection", V + "decl_class.rs visit_fn"), ("super slot", V + "decl_class.rs")],
     ["Compiler::compile_source error_code", "execution of the returned Bytecode"])

prop("P14", "Modules export and import exactly what they name",
     "Running a module yields its export object holding exactly the exported names with their values. An import binds each listed item, and the `* as` name, to the corresponding export of the module with exactly the given path, which each import requests exactly once.",
     ["programs", "histories"], "All export forms, import forms, orders, and module graphs.",
     NOEXEC + "Cross-module behaviour spans several compiled units.",
     [V + "decl_export.rs", V + "decl_import.rs", C + "compiler.rs", S + "parser/mod.rs"],
     [("export object in slot zero", C + "compiler.rs compile"), ("import lowering", V + "decl_import.rs")],
     ["execution of the returned Bytecode"])

prop("P15", "Declared types are enforced on parameters and on every return",
     "A typed parameter is checked against its type on every call before the body runs, and a typed function or method checks its result on every way of returning; a nullable annotation also admits null and a plain one does not. "
     "Values that satisfy the annotation pass through unchanged, and unannotated parameters and results are never checked.",
     ["programs", "inputs"], "All annotations, positions, values and return paths.",
     NOEXEC + "The checks must be on every return path, including early and propagated ones.",
     [V + "expr_block.rs", V + "expr_return.rs", V + "expr_error_propagate.rs", V + "decl_var.rs", S + "parser/mod.rs"],
     [("type assertions", V + "expr_block.rs visit_args, visit_return")],
     ["execution of the returned Bytecode"])

prop("P16", "Programs beyond an encoding limit are rejected, never miscompiled",
     "When a program has more constants, captured variables, local variables, parameters, call arguments, list elements or jump distance than the code format can hold, compilation fails with a diagnostic; "
     "at and below the limit it compiles and behaves correctly.",
     ["programs"], "Sizes around every operand-width limit, in every construct that consumes it.",
     NOEXEC + "Limits need programs far larger than any sample.",
     [C + "assembler.rs", C + "scope_stack.rs", V + "expr_fn_call.rs", V + "literal_list.rs", S + "parser/mod.rs"],
     [("constant and capture limits", C + "assembler.rs make_constant, closure")],
     ["Compiler::compile_source error_code", "execution of the returned Bytecode"])

prop("P17", "Tokens follow longest match, and layout and comments never matter",
     "The text is divided into tokens by longest match, keywords only when the whole word matches, with every character belonging to a token, to whitespace or to a comment, and each token's span covering exactly its text. "
     "Replacing whitespace or comments between tokens by other whitespace or comments, including empty comments, changes nothing but positions.",
     ["inputs"], "All character sequences; all ways of spacing a token sequence.",
     "The lexer tests check a few dozen literal strings; the property is over all character sequences and spacings.",
     [S + "lexer/token.rs", S + "lexer/mod.rs", S + "lexer/lexer_result.rs"],
     [("token definitions", S + "lexer/token.rs TokenKind")],
     ["the token stream", "Compiler::compile_source"],
     hook="read access to the token stream (module made public under a cfg)")

prop("P18", "Parsing follows the grammar: precedence, associativity, nothing dropped",
     "The syntax tree of a program is the one the grammar assigns: binary operators are left associative with precedence from pipeline (loosest), coalesce/or, ranges, ||, &&, comparisons and `is`, sums, products, prefix, propagation, to calls and accesses (tightest), parentheses override, assignment is loosest and right-nested. "
     "All of the input is accounted for: text that does not fit the grammar is rejected with an error, never silently skipped or truncated.",
     ["inputs", "programs"], "All token sequences.",
     "No existing test parses anything; precedence is a statement about all operator combinations.",
     [S + "parser/mod.rs", S + "parser/rules.rs", S + "ast/node.rs"],
     [("precedence table", S + "parser/rules.rs Precedence"), ("precedence climbing", S + "parser/mod.rs parse_precedence")],
     ["Parser::parse"])

prop("P19", "Byte offsets map to the right line, UTF-16 column and source lines",
     "For every source text and every offset on a character boundary, the reported line is the number of line feeds before it and the column is the number of UTF-16 code units between the line start and it. "
     "For every non-empty span, the reported lines are exactly the lines it touches, in order and in full.",
     ["inputs"], "All texts (including multi-byte characters, empty lines, CRLF) and all offsets and spans in them.",
     "The existing tests sample a few offsets in three short texts with one multi-byte character.",
     [K + "source.rs", K + "span.rs"],
     [("line index", K + "source.rs LineIndex")],
     ["LineIndex::position_of", "LineIndex::lines"])

prop("P20", "Diagnostics name the error, explain it and point at the offending code",
     "Every diagnostic has a unique documented error code and renders with that code, a non-empty localized message with its details filled in, and a 1-based line and column; when it stems from the source text, that position lies within the offending construct and the shown source lines are the lines of that construct. "
     "The details (token found, tokens expected, variable names) are those of the offending construct.",
     ["inputs", "programs"], "All rejected programs and all error codes.",
     NOEXEC + "Nothing checks any diagnostic.",
     [K + "error/mod.rs", K + "error/fmt.rs", K + "error/localization.rs", K + "error/codes.rs", K + "error/tag.rs", K + "error/context.rs", "data/locales/en-US/errors.ftl", "data/locales/en-US/error-notes.ftl"],
     [("message lookup", K + "error/localization.rs"), ("span attachment", S + "parser/mod.rs, " + V)],
     ["Error::error_code", "Display for Error", "Debug for Error"])

prop("P21", "The disassembly lists exactly the compiled code",
     "Printing a compiled program lists, for the program and for every nested function, each instruction once, in order, at its true offset, with its name and the operand values encoded in it.",
     ["programs"], "All compiled programs, all instructions.",
     "Nothing prints a program in the tests.",
     [B + "lib.rs", B + "instruction.rs", B + "cursor.rs"],
     [("Display", B + "lib.rs")],
     ["Display for Bytecode"])

prop("P22", "Compilation depends only on the source text and kind",
     "Compiling the same text with the same kind gives equivalent code or the same diagnostic every time: earlier compilations, their failures, repetition and the order of compilations leave no trace in the result.",
     ["histories", "programs"], "All sequences of compilations in one process, and across processes.",
     "Each test runs one call; history independence is a property of sequences.",
     [C + "compiler.rs", S + "parser/mod.rs", S + "parser/rules.rs", K + "error/localization.rs"],
     [("fresh compiler state per call", C + "compiler.rs compile_source")],
     ["Compiler::compile_source"])

prop("P23", "Overloaded operators dispatch to the right definition with the right operands",
     "An operator declared in a class is used when its left operand is an instance of that class (or of a subclass), with the left operand as receiver and the right as argument; an operator declared globally is used when the left operand's class has none, receiving both in order. "
     "Each operator symbol names one operation: declaring one never affects another, and built-in operations on numbers and booleans are unaffected.",
     ["programs"], "All overloadable operators, in classes, subclasses and globally.",
     NOEXEC + "Every operator symbol needs its own path from declaration to use.",
     [V + "decl_op.rs", V + "decl_class.rs", V + "expr_binary_op.rs", K + "protocol.rs", S + "parser/mod.rs", S + "ast/node.rs"],
     [("operator names", K + "protocol.rs operator, " + V + "decl_op.rs op_name")],
     ["execution of the returned Bytecode"])

prop("P24", "Calls bind arguments by position and return exactly one result",
     "Calling a function binds the arguments to its parameters by position in a fresh activation, so recursion and re-entrance never disturb the caller's variables or pending operands; the call yields the returned value, or the value of the body when it does not return early (unit if the body ends without a value). "
     "`return` from any depth of blocks, loops and pending operands ends only the innermost function.",
     ["programs", "inputs"], "All function shapes, argument counts, recursion depths and return placements.",
     NOEXEC + "Calls interleave with every other construct.",
     [C + "compile_fn.rs", V + "expr_fn_call.rs", V + "expr_return.rs", V + "expr_block.rs", V + "literal_anonymous_fn.rs", V + "decl_fn.rs"],
     [("argument slots", V + "expr_block.rs visit_args"), ("return unwinding", V + "expr_return.rs")],
     ["execution of the returned Bytecode"])

prop("P25", "The standard prelude provides working ranges and results",
     "Compiled and run as a module, the shipped prelude exports ranges and results that behave: iterating an exclusive or inclusive range value visits exactly its members in order and stops, and results report success or failure and carry, map and convert their payload accordingly.",
     ["inputs", "programs"], "All range bounds and kinds; all result payloads and mapped functions.",
     NOEXEC + "The prelude is never compiled or run by a test that works.",
     ["data/scripts/prelude.dm", K + "protocol.rs", V + "expr_for.rs"],
     [("iteration protocol", K + "protocol.rs iterator"), ("prelude source", "data/scripts/prelude.dm")],
     ["execution of the compiled prelude"])

prop("P26", "Every part of the syntax tree points at exactly its own text",
     "For every text the parser accepts, the source range of every node of the syntax tree runs from the first byte of the first token to the last byte of the last token the node was parsed from, so that a node's range covers the nodes below it; "
     "a parameter's range covers its name and annotation, a type annotation's range also the token that introduces it (`:`, `->` or `is`), and the range of a declared name covers just the name. Blocks include their braces; parentheses around an expression do not belong to it. "
     "This holds whatever the width in bytes of the characters and comments between and before the tokens.",
     ["inputs", "programs"], "All accepted texts; every node, parameter, annotation and declared name.",
     "Ranges depend on which tokens every production consumed in every combination; tests that print a tree do not look at them.",
     [S + "parser/mod.rs", S + "lexer/mod.rs", K + "span.rs", S + "ast/node.rs"],
     [("joining the spans of the first and last token", S + "parser/mod.rs span_start + span_end"), ("the span of the token consumed last", S + "lexer/mod.rs current")],
     ["SyntaxNode::span over SyntaxTree of Parser::parse"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
