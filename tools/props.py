TW = "The tests compare exit codes of a few hundred sample programs; "
# ------------------------------------------------------------------ whole compiler
p("C01", "Compilation always ends with a verdict and never corrupts memory",
  "For every source text, the compiler terminates with exit status success or failure: it never crashes, hangs, or reads or writes memory it does not own, however malformed the program is (nesting up to several hundred levels).",
  ["inputs", "programs"], "every sequence of up to N tokens over the language's token alphabet, and every truncation, single-token deletion, duplication and substitution of a set of seed programs covering every construct",
  TW + "malformed input is an unbounded space and memory errors do not show in exit codes.",
  ["src/main.c", C + "lexer.c", C + "parser.c", C + "builder.c", C + "codegen.c", C + "llvmgen.c", C + "mipsgen.c", M + "parser.c"],
  [("panic-mode error recovery", C + "parser.c"), ("token scanner", C + "lexer.c")],
  ENUM + "token sequences and mutations on the sanitizer build of the real compiler", SAN)
p("C02", "Exit status, error messages and output file agree",
  "Compilation succeeds exactly when no error was reported, and the output file holds generated code exactly when it succeeds (after a failure it is empty or absent); warnings never turn success into failure; with -Wno no warning is printed, and neither the verdict, the code nor the first error changes; and a static error is reported in the same words for every target.",
  ["programs", "configurations"], "every program of the enumerated corpus of valid and invalid programs x every target x every combination of -Wno",
  TW + "the link between messages, exit status and artefact is not looked at.",
  ["src/main.c", C + "compiler.c", C + "reporter.c", C + "errors.c", "libs/utils/logger.c"],
  [("error counter", C + "reporter.c"), ("stage sequencing", C + "compiler.c")],
  ENUM + "programs x targets x options on the real compiler", ORA)
p("C03", "The generated code depends only on the program, not on the environment or layout",
  "Compiling the same program twice gives byte-identical output, whatever was in memory or in the output file before; the debug and release builds agree on what they produce for the virtual machine and LLVM; and inserting white space, line breaks or comments between tokens does not change the code of any target; dividing the source between external declarations into several files given in order does not change the code for the virtual machine or LLVM; and consistently renaming identifiers to other unused names of any script changes nothing in the code for the virtual machine except the recorded names.",
  ["programs", "configurations"], "every seed program x every gap between tokens x every separator of the alphabet; every renaming of the set; every split point between external declarations",
  TW + "each is compiled once and output is not compared.",
  [C + "compiler.c", C + "lexer.c", C + "syntax.c", U + "uniprinter.c", M + "macro.c"],
  [("white space and comment skipping", C + "lexer.c"), ("table output", C + "codegen.c")],
  ENUM + "layout transformations, comparing outputs of the real compiler", ORA)
p("C04", "Command-line options select target, output, include directories and messages",
  "Options may come in any order and position relative to the inputs without changing the result: the last output name is used (or the default name of the target when none is given) and no other file is written, the target flag selects which kind of code is produced with the virtual machine as the default, -E produces only the preprocessed text, -c accepts a program with functions that are not defined, -I directories are searched in order after the directory of the including file, -D defines a macro, inputs are compiled in the given order and each once, and a missing input, missing option argument, missing directory or output that cannot be written is reported as an error without crashing.",
  ["configurations", "inputs"], "every argument vector up to length N over the alphabet of options, files and names",
  TW + "a single fixed argument order is used by the test script.",
  ["src/main.c", C + "compiler.c", U + "workspace.c", M + "macro.c"],
  [("argument parsing", U + "workspace.c"), ("target selection", C + "compiler.c")],
  ENUM + "argument vectors on the real compiler against a model of the command line", ORA)
# ------------------------------------------------------------------ language semantics
p("C10", "Expressions compute the value the language defines (virtual machine)",
  "For every well-typed expression over integers, characters, Booleans and floating numbers, the code generated for the virtual machine computes the value defined by the language: usual precedence and associativity, 32-bit integer arithmetic, implicit conversions from integer to floating, left-to-right short-circuit of logical operators, one evaluation of the chosen branch of a conditional, and the values and side effects of assignments, compound assignments, increments and decrements.",
  ["programs", "inputs"], "every expression tree up to the depth bound over all operators and operand kinds, evaluated on every vector of the boundary-value set",
  "No test executes virtual machine code at all: only exit codes of the compiler are compared.",
  [C + "codegen.c", C + "parser.c", C + "builder.c", C + "instructions.c", C + "operations.c"],
  [("expression emission", C + "codegen.c"), ("operator precedence table", C + "operations.c"), ("constant folding and conversions", C + "builder.c")],
  ENUM + "expressions, executing the generated code in a model of the virtual machine against a reference evaluator"
  , "Trusts the virtual machine model in lib/vm.c (bound to the compiler by agreement with the LLVM back end and the reference evaluator on every enumerated program). " + ORA)
p("C11", "Statements run in the order and number the language defines (virtual machine)",
  "For every program built from blocks, conditionals, the three kinds of loops, break, continue, return, labels of switch and nested combinations of them, the generated virtual machine code executes exactly the sequence of actions the language prescribes, and leaves nothing behind on the evaluation stack after each full statement.",
  ["programs", "inputs", "histories"], "every statement tree up to the size bound, on every input vector of the control inputs; the whole trace of actions is compared",
  "No test executes virtual machine code at all.",
  [C + "codegen.c", C + "parser.c", C + "builder.c"],
  [("jump emission and back-patching of break/continue/case", C + "codegen.c")],
  ENUM + "statement trees, comparing the full action trace of the generated code with a reference interpreter"
  , "Trusts the virtual machine model in lib/vm.c. " + ORA)
p("C12", "Arrays, structures and pointers keep their values apart (virtual machine)",
  "Every read of an array element, structure member or dereferenced pointer yields the value last stored in exactly that object: distinct objects never overlap, initialisers fill the elements they name in order, assignment and passing of structures copy all members, array bounds are available and checked, and address-of followed by dereference is the identity.",
  ["programs", "histories"], "every declaration shape of the alphabet (scope x element type x dimensions x initialiser) and every sequence of accesses up to the length bound",
  "No test executes virtual machine code at all.",
  [C + "codegen.c", C + "syntax.c", C + "builder.c", C + "parser.c"],
  [("displacement allocation", C + "syntax.c"), ("array and structure initialisation", C + "codegen.c")],
  ENUM + "declaration shapes and access histories against a reference store"
  , "Trusts the virtual machine model in lib/vm.c. " + ORA)
p("C13", "Calls bind arguments, isolate frames and return values (virtual machine)",
  "A call evaluates its arguments in order, binds each to its own parameter by value (converting integers to floating where declared, sharing arrays by reference), runs the called function in a fresh frame, and yields the returned value; this holds for nested, recursive and mutually recursive calls, calls through function parameters, and functions declared before they are defined.",
  ["programs", "histories"], "every signature up to the parameter bound over all parameter types x every call context x every argument form; every call graph over up to three functions of the enumerated shapes",
  "No test executes virtual machine code at all.",
  [C + "codegen.c", C + "parser.c", C + "syntax.c"],
  [("call sequence", C + "codegen.c"), ("function table", C + "syntax.c")],
  ENUM + "signatures, call shapes and argument forms against a reference evaluator"
  , "Trusts the virtual machine model in lib/vm.c. " + ORA)
p("C14", "Every virtual machine image is well formed",
  "In every image the compiler writes, the header counts match the tables that follow, every cell of the code decodes to a known instruction with its operands, every jump lands on an instruction of the same function, every function entry is set, every identifier, name and type reference is within its table, all variable addresses lie within the declared frame or global area and the evaluation stack has the same height on every path to an instruction.",
  ["programs"], "every program generated by the enumerations of the other semantic properties",
  "The image is never parsed by any test.",
  [C + "codegen.c", C + "instructions.h", C + "syntax.c", "libs/utils/uniprinter.c"],
  [("code emission and back-patching", C + "codegen.c"), ("tables", C + "codegen.c")],
  "exhaustive abstract execution (all paths) of every enumerated image", "Trusts the decoder in the check. " + ORA)
p("C20", "The LLVM module computes what the source program computes",
  "For every program over integer, floating and Boolean values, the LLVM output is a module the LLVM tools accept, and running it prints exactly what the language prescribes for expressions with all their operators and side effects, assignments to variables, elements, members and dereferenced pointers, all statements, arrays of any dimensions and their initialisers, constants, structures of scalars, pointers, and calls with scalar and pointer arguments, recursion and prototypes.",
  ["programs", "inputs"], "the expression, statement, aggregate and call enumerations restricted to the supported subset",
  TW + "about two hundred fixed programs are run, each with one input.",
  [C + "llvmgen.c"], [("LLVM code emission", C + "llvmgen.c")],
  ENUM + "programs, running the LLVM output against the reference evaluator", "Trusts clang 14. " + ORA)
p("C21", "The MIPS assembly computes what the source program computes",
  "For every accepted program of the supported subset (integer expressions, assignments, conditionals, loops, function calls and printing), the MIPS output is assembly whose execution prints exactly what the language prescribes.",
  ["programs", "inputs"], "the expression, statement and call enumerations restricted to the supported subset",
  "The tests only assemble the output; they never run it.",
  [C + "mipsgen.c"], [("MIPS code emission", C + "mipsgen.c")],
  ENUM + "programs, simulating the MIPS output against the reference evaluator", "Trusts the MIPS simulator in the check. " + ORA)
# ------------------------------------------------------------------ static semantics
p("C30", "Literals denote exactly the value that is written",
  "Every integer, floating, character, string and Boolean literal in any supported notation (decimal, octal, hexadecimal, binary, exponent, escape sequence, any Unicode character) yields exactly the value written (an integer too large for the integer type becomes the floating value written), adjacent string literals are joined, and malformed literals are rejected; digits never leak into neighbouring tokens, so any sequence of operators and names is split by longest match.",
  ["inputs"], "every digit string up to the length bound over boundary digits in every base; every escape; every character class; every sequence of punctuation tokens up to length N with and without spaces",
  TW + "a literal's value is never observed.",
  [C + "lexer.c", C + "token.c", U + "uniscanner.c"], [("number, string and punctuator scanners", C + "lexer.c")],
  ENUM + "literal spellings, reading the values back from the generated code", ORA)
p("C31", "Operators accept exactly the operand types the language allows",
  "For every operator and every combination of operand types and operand kinds (variable, literal, constant, element, member, call result, dereference), the expression is accepted exactly when the language allows it: arithmetic, bitwise, shift, comparison, logical and conditional operators, assignments, subscripts, member access, address-of, dereference and calls; the result has the type and category the language gives it (which decides how it may be used further); increments and assignments need a modifiable object, and constants cannot be changed through any of them.",
  ["programs"], "the full product operators x operand types x operand kinds",
  TW + "a few dozen of the several thousand combinations are sampled.",
  [C + "builder.c", C + "syntax.c", C + "parser.c"], [("type checks", C + "builder.c"), ("assignability", C + "builder.c")],
  ENUM + "operator/type combinations against a table of the language's rules", ORA)
p("C32", "Names resolve to the innermost visible declaration",
  "Every use of a name refers to the innermost declaration visible at that point, a name may be declared once per scope but may be redeclared in an inner one, a name is unknown before its declaration and after its scope ends, members of different structures do not clash, and every use of an undeclared name is rejected.",
  ["programs"], "every nesting of scopes and every placement of declarations and uses up to the size bound",
  TW + "a handful of shadowing patterns is sampled.",
  [C + "syntax.c", C + "parser.c"], [("representation table and scopes", C + "syntax.c")],
  ENUM + "scope/declaration/use patterns against a reference resolver, executing the accepted ones", ORA)
p("C33", "Statements are accepted only where they make sense",
  "break is accepted only inside a loop or switch, continue only inside a loop, case and default only inside a switch with at most one default, a returned value must be present and convertible exactly when the function has a result, conditions and switch selectors must have the permitted types, and declarations and functions may appear only where the language allows them.",
  ["programs"], "every nesting of statement contexts up to depth N x every statement kind x every function type",
  TW + "a handful of contexts is sampled.",
  [C + "parser.c", C + "builder.c"], [("context tracking", C + "parser.c")],
  ENUM + "statement contexts against the context rules", ORA)
p("C34", "Declarations and initialisers are accepted exactly when well formed",
  "A declaration is accepted exactly when its type is complete, its name is not yet declared in the scope, array dimensions and structure members are well formed, and its initialiser matches the declared type in nesting, length and element types; calls must match the declared number and types of parameters, and a function's definition must match its prototype.",
  ["programs"], "the product of declared types x initialiser shapes x scopes, and of signatures x argument lists up to the bound",
  TW + "a handful of shapes is sampled.",
  [C + "parser.c", C + "builder.c", C + "syntax.c"], [("initialiser checks", C + "builder.c"), ("declaration checks", C + "parser.c")],
  ENUM + "declarations, initialisers and calls against the rules", ORA)
p("C35", "Constant expressions are folded to the value they would have at run time",
  "Evaluating an operator on literals at compile time gives the same result, of the same type, as evaluating it on variables holding the same values at run time.",
  ["inputs", "programs"], "every operator x every pair of boundary literals of every type, and nested combinations",
  "No test compares values.",
  [C + "builder.c"], [("literal folding", C + "builder.c")],
  ENUM + "constant expressions, comparing folded with unfolded execution", ORA)
p("C36", "Formatted output directives match their arguments",
  "A formatted print call is accepted exactly when its format is a string literal whose directives correspond one to one, in order and in type, to the arguments that follow, and at run time the directives print those arguments.",
  ["programs"], "every format of up to N pieces over all directives, text and percent signs x every argument list up to length N over all types",
  TW + "only a few wrong formats are sampled.",
  [C + "builder.c", C + "parser.c", C + "codegen.c"], [("format check", C + "builder.c")],
  ENUM + "formats x argument lists against a reference matcher", ORA)
p("C37", "English, Russian and capitalised keyword spellings are interchangeable",
  "Replacing any keyword of a program by any of its other documented spellings gives the same verdict and byte-identical generated code.",
  ["programs"], "every keyword x every spelling in every seed program using it; all at once",
  TW + "each uses one spelling.",
  [C + "lexer.c", C + "syntax.c", M + "keywords.c", U + "map.c"], [("keyword table", C + "syntax.c")],
  ENUM + "keyword spellings, comparing outputs", ORA)
p("C38", "Every error is reported at the line and file that contain it",
  "When a program has a single erroneous line, the reported file and line are those of that line as written by the user, whatever comments, blank lines, macro expansions, skipped conditional parts, multi-line text or included files come before it, and the quoted line is that line (comments may be left out of the quotation).",
  ["programs"], "every sequence of up to N prefix fragments of the alphabet x every kind of erroneous line x every file of an inclusion chain",
  TW + "message text is not compared.",
  [U + "locator.c", U + "logger.c", C + "reporter.c", M + "error.c", U + "commenter.c"],
  [("line marks inserted by the preprocessor", M + "linker.c"), ("location lookup", U + "locator.c")],
  ENUM + "prefix fragment sequences x errors against a line-counting model", ORA)
# ------------------------------------------------------------------ preprocessor
p("C40", "Conditional directives keep exactly the selected text",
  "For any nesting of conditional directives, exactly the text of the first branch whose condition holds is kept, at every level; directives inside skipped text have no effect; and unbalanced, misplaced or repeated branch directives are errors.",
  ["inputs", "histories"], "every directive sequence up to length N over #if/#ifdef/#ifndef/#elif/#else/#endif/#define/#undef/text",
  TW + "a few nestings are sampled.",
  [M + "parser.c"], [("conditional skipping", M + "parser.c")],
  ENUM + "directive sequences against a reference preprocessor", ORA)
p("C41", "Macro definitions form a dictionary that use sites consult",
  "At each point of the text a name expands to the replacement of its most recent definition still in force, defining an existing name with #define or changing an unknown one with #set is diagnosed as documented, undefining removes exactly that name, and text that names no macro is passed through unchanged.",
  ["histories"], "every sequence of define/set/undef/use/test operations up to length N over a small set of names, including names that are prefixes of one another and non-Latin names",
  TW + "a few histories are sampled.",
  [M + "storage.c", M + "parser.c", U + "map.c"], [("macro storage", M + "storage.c")],
  ENUM + "definition histories against a dictionary model", ORA)
p("C42", "Macro calls substitute arguments exactly",
  "A macro call is replaced by the macro's replacement text with every parameter replaced by the corresponding argument's text, with stringising and pasting applied, nested calls expanded, text in strings and comments left alone, and a wrong number of arguments reported as an error.",
  ["inputs"], "every macro body of up to N pieces x every argument list of the alphabet x nesting of calls",
  TW + "a few macros are sampled.",
  [M + "parser.c", M + "storage.c"], [("argument collection and substitution", M + "parser.c")],
  ENUM + "macro bodies x argument lists against a reference expander", ORA)
p("C43", "Directive expressions evaluate like the language's integer expressions",
  "The value of an expression in a conditional or evaluation directive is the value of the same expression under the language's integer rules, with the same precedence, associativity, parentheses and unary operators, and malformed expressions and divisions by zero are rejected without crashing.",
  ["inputs"], "every expression up to N operators over all operators and boundary values, with all parenthesisations; every malformed token sequence up to length N",
  TW + "a few expressions are sampled.",
  [M + "computer.c", M + "parser.c"], [("operator stack evaluator", M + "computer.c")],
  ENUM + "expressions against a reference evaluator", ORA)
p("C44", "Directive loops and multi-line macros repeat exactly as prescribed",
  "A loop directive repeats its body while its condition holds, re-evaluating it before each pass with the definitions then in force, nested loops and conditionals inside bodies behave as if written out, and a multi-line macro call inserts its lines with arguments substituted.",
  ["inputs", "histories"], "every loop body of up to N lines of the alphabet x bounds x nesting up to 2",
  TW + "a few loops are sampled.",
  [M + "parser.c"], [("loop re-reading", M + "parser.c")],
  ENUM + "loop programs against a reference preprocessor", ORA)
p("C45", "Included files are found in order and inserted once, where they are first named",
  "An include directive inserts the named file found first next to the including file and then in the search directories in order, with text before and after kept in place; a file that was already inserted, under whatever spelling of its path, is not inserted again, so inclusion cycles end; and a missing file is reported as an error.",
  ["inputs", "configurations"], "every include graph over up to 3 files, every placement of candidates over up to 3 directories x search orders",
  TW + "a few include layouts are sampled.",
  [M + "linker.c", M + "parser.c", U + "workspace.c"], [("path search", M + "linker.c")],
  ENUM + "include graphs and file placements against a model", ORA)
p("C46", "Text without directives survives preprocessing token for token",
  "Source text that uses no directive and no macro reaches the compiler with the same tokens in the same order: comments disappear without joining neighbouring tokens, string and character contents are untouched, and every character of every script is preserved.",
  ["inputs"], "every character sequence up to length N over the alphabet of comment, quote, escape, newline, letter and multibyte characters",
  TW + "preprocessed text is not compared.",
  [M + "parser.c", U + "uniscanner.c", U + "utf8.c"], [("comment and string skipping", M + "parser.c")],
  ENUM + "character sequences against a reference lexer", ORA)
# ------------------------------------------------------------------ libraries
p("C60", "Vectors and stacks behave as sequences",
  "After any sequence of operations, a vector reads back exactly the values written at each index, with floating and 64-bit values occupying consecutive cells and restored bit for bit, its size is the number of cells present, grown cells read as zero, and a stack returns values in last-in first-out order; out-of-range and invalid operations are refused without changing anything.",
  ["histories"], "every operation sequence up to length N over the full interface, values and indices from boundary sets, from every initial capacity up to the bound",
  "The repository has no unit tests for its containers.",
  [U + "vector.c", U + "stack.c", U + "item.c"], [("growth and bounds checks", U + "vector.c")],
  ENUM + "operation sequences on the sanitizer build against a reference sequence", SAN)
p("C61", "The dictionary maps every key to its last value",
  "After any sequence of operations, looking up a key, in every spelling form the interface offers (string, UTF-8 characters, or read from an input), returns the value last stored for exactly that key or the not-found value, keys that are prefixes of or collide with one another stay distinct, stored keys read back unchanged, and adding an existing key is refused.",
  ["histories"], "every operation sequence up to length N over keys of the alphabet, including prefixes, collisions, empty and non-Latin keys",
  "The repository has no unit tests for its containers.",
  [U + "map.c"], [("hash chains and key storage", U + "map.c")],
  ENUM + "operation sequences on the sanitizer build against a reference dictionary", SAN)
p("C62", "The record table keeps each record under its key",
  "After any sequence of operations, each key of the record table has exactly the record last added for it, with the number of fields given at creation and the values last written to each field; writes to one record never change another, and absent keys and fields are reported as such.",
  ["histories"], "every operation sequence up to length N over keys that do and do not collide and record sizes 0 to 3",
  "The repository has no unit tests for its containers.",
  [U + "hash.c"], [("bucket chains in one vector", U + "hash.c")],
  ENUM + "operation sequences on the sanitizer build against a reference table", SAN)
p("C63", "The string table returns every stored string unchanged",
  "After any sequence of additions and removals, in every accepted form, the string table returns every stored string with its exact characters and length at its index, and previously returned strings stay valid while the table is not changed.",
  ["histories"], "every operation sequence up to length N over strings of lengths around the growth points",
  "The repository has no unit tests for its containers.",
  [U + "strings.c"], [("growth of storage", U + "strings.c")],
  ENUM + "operation sequences on the sanitizer build against a reference list", SAN)
p("C64", "Tree edits preserve the shape of everything else",
  "After any sequence of node additions, insertions, swaps, copies, moves, removals and argument writes, the tree read through any navigation operation is the tree an ordered-tree model predicts: parents, child order and arguments of all other nodes are unchanged, and traversal visits every node once in order.",
  ["histories"], "every reachable tree up to N nodes x every edit with every pair of nodes",
  "The repository has no unit tests for its containers.",
  [U + "tree.c", U + "node_vector.c"], [("threaded child references in one vector", U + "tree.c")],
  ENUM + "edit sequences (breadth first over reachable trees) against a reference ordered tree", SAN)
p("C65", "Target cells hold every value losslessly",
  "For every target cell type, storing a floating or 64-bit value in target cells and restoring it gives back the identical value, uses the number of cells that width requires, and a value is accepted for a cell exactly when it lies within the cell type's range.",
  ["inputs", "configurations"], "all eight cell types x the full boundary set of bit patterns (every single and double bit, every byte value in every position, all range boundaries)",
  "The repository has no unit tests for it; only 32-bit cells are exercised by other tests.",
  [U + "item.c"], [("bit splitting", U + "item.c")],
  ENUM + "cell types x bit patterns on the sanitizer build", SAN)
p("C66", "Characters survive encoding and decoding and are classified consistently",
  "For every Unicode code point, encoding it and decoding the result gives the same code point and length; letter, digit and separator classification and case folding are consistent between the Latin and Cyrillic alphabets; and invalid byte sequences never cause reads outside the text.",
  ["inputs"], "all 1114112 code points; all byte strings up to length 4 over boundary bytes",
  "The repository has no unit tests for it; tests use only ASCII and Cyrillic text.",
  [U + "utf8.c"], [("encoding and classification tables", U + "utf8.c")],
  ENUM + "all code points and bounded byte strings on the sanitizer build", SAN)
p("C67", "Reading and writing through files and memory buffers is equivalent",
  "Any sequence of formatted prints, characters, scans and position changes gives the same results and the same contents whether the channel is a file, a memory buffer or a user function, input is consumed exactly once in order, a saved position can be restored, and what was printed is what is read back.",
  ["histories"], "every operation sequence up to length N over the alphabet of print, scan, seek and swap operations, on each kind of channel",
  "The repository has no unit tests for it.",
  [U + "uniio.c", U + "uniprinter.c", U + "uniscanner.c"], [("buffer growth and position", U + "uniio.c")],
  ENUM + "operation sequences on the sanitizer build, comparing channels with each other and with a byte-string model", SAN)
p("C68", "The workspace records files, directories, flags and output faithfully",
  "After any sequence of additions or any parsed argument vector, the workspace lists each existing file and directory once, in order of first mention and regardless of how its path is spelled, keeps every flag and the last output name, and becomes invalid exactly when a missing path or malformed argument was given.",
  ["histories", "inputs"], "every operation sequence and every argument vector up to length N over path spellings, flags and outputs",
  "The repository has no unit tests for it.",
  [U + "workspace.c"], [("path normalisation and deduplication", U + "workspace.c")],
  ENUM + "operation sequences and argument vectors on the sanitizer build against a model", SAN)
