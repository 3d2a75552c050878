"""The properties, their checks: source of properties.jsonl and MANIFEST.json."""
C = 'internals/compiler/'
S = 'internals/semantic/'
P = 'internals/parser/'
TESTS = ('The repository compiles about 50 fixed source files and compares nothing but a few printed lines; '
         'a handful of values reach each operation.')


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=[{'name': n, 'where': w} for n, w in mechanism], observe=observe, technique=technique, note=note)


DIFF = 'runtime monitoring: the output trace of compiled random programs against a bit-exact reference interpreter (O0 and release)'
DIFFN = ('Every program is compiled by the compiler of the working tree, linked with clang at -O0 and with the release flags, and run; '
         'its whole trace must equal the one of an independent interpreter. Only defined behaviour is generated. '
         'Trusts clang, libc and the interpreter of vf/lang.py.')

PROPS = [
    prop('C01', 'Operators compute the exact result of their type',
         'For every integer width and signedness and both float types, the value of + - * / % & | ^ << >>, unary minus, ++, --, '
         '== != < > <= >= is the mathematical result wrapped to the width of the type (integers; signed division truncates, >> shifts in '
         'zeros, unsigned operands are divided and compared unsigned) or rounded to the type (floats). The result does not depend on where '
         'the operands live: local, parameter, global, constant, field, element, heap, dereferenced pointer or call result.',
         ['inputs', 'programs'], 'all operand values for which the operation is defined, all operand types and places, nested expressions',
         TESTS + ' Only a few of the type/operator pairs are ever executed, none at the boundaries.',
         [C + 'compiler.go', C + 'compiler_comparisons.go', C + 'compiler_conversions.go'],
         [('compileBinaryExpression and compileAdd/Subtract/Multiply/Divide/Modulo', C + 'compiler.go'),
          ('signed and unsigned comparison predicates', C + 'compiler_comparisons.go')],
         ['standard output of the compiled program'], DIFF, DIFFN),
    prop('C02', 'Casts convert values exactly',
         'A cast between any two numeric types yields the value modulo the width of an integer target (sign-extended from signed sources, '
         'zero-extended from unsigned sources and i1), the nearest float for a float target, and the truncated integer for an in-range float '
         'source. A cast between pointer types, or from a pointer to a 64 bit integer and back, or from an array to a pointer to its '
         'element type, designates the same memory.',
         ['inputs', 'programs'], 'all pairs of types, all values with a defined conversion, chains of casts, all places a value may come from',
         TESTS + ' Two or three casts are executed.',
         [C + 'compiler_conversions.go', C + 'compiler.go', C + 'compiler_constant.go', S + 'semantic_builtin.go'],
         [('handleCast, handleIntegerCast, handleFloatCast', C + 'compiler_conversions.go')],
         ['standard output of the compiled program'], DIFF, DIFFN),
    prop('C03', 'Grouping follows precedence; layout does not matter',
         'The meaning of a program is decided by its tokens alone: binary operators group to the left by the fixed levels (&& ||; comparisons; + -; & | ^ << >>; '
         '* / %; as), prefix operators bind tighter, calls, indices and fields tighter still. Redundant parentheses around values, other white space, line '
         'breaks, comments, omitted semicolons before a name, keyword or }, omitted braces around a body of one statement, and integer literals '
         'written in another base change neither whether a program is accepted nor what it does.',
         ['inputs', 'programs'], 'all programs and all their spellings',
         TESTS + ' The tests of the parser print about forty expressions.',
         ['internals/lexer/lexer.go', P + 'parser.go', P + 'parser_precedence.go', P + 'parser_assignment.go'],
         [('precedences and parseExpression', P + 'parser.go'), ('NextToken, skipWhiteSpace, comments and literals', 'internals/lexer/lexer.go')],
         ['emitted code of each spelling', 'standard output of the compiled spellings'],
         'runtime monitoring: metamorphic comparison of emitted code and output over random spellings of random programs, and against a reference interpreter',
         'Programs whose code differs between spellings are judged by their output. Trusts the interpreter of vf/lang.py.'),
    prop('C04', 'Control flow follows the source; operands are evaluated once, in order',
         'if / else if / else, the three forms of for, switch, blocks, break, continue and return execute exactly the statements their '
         'conditions select, however they are nested, and break and continue act on the innermost enclosing loop. && and || skip their '
         'right operand exactly when the left one decides; every other operand, argument, index, list value and assigned place is '
         'evaluated exactly once, from left to right, and an assigned place before the value that is stored into it.',
         ['programs', 'histories'], 'all nestings of statements and all orders of side effects inside expressions',
         TESTS + ' Nestings of more than two statements and evaluation order are not looked at.',
         [C + 'compiler.go', P + 'parser.go', S + 'semantic.go'],
         [('compileIf, compileFor, compileSwitchStatement, compileBlock: basic blocks and their terminators', C + 'compiler.go'),
          ('handleComparisonOperations and the short-circuit blocks of && and ||', C + 'compiler.go')],
         ['the trace that conditions, operands and statements print'], DIFF, DIFFN),
    prop('C05', 'Names refer to their innermost declaration; assignment changes only its target',
         'In every function, block, branch, loop and block expression a name refers to the latest declaration in the innermost scope that '
         'declares it, and to the outer one again once the scope ends, for locals, parameters, loop variables and globals. An '
         'assignment stores the value into exactly the places on its left and changes nothing else; `a, b = x, y` evaluates all of its '
         'right side before it stores, and declarations of several names bind them in order.',
         ['programs', 'histories'], 'all nestings of scopes and sequences of declarations, redeclarations and assignments',
         TESTS + ' shadowing.cd has one program.',
         [C + 'compiler.go', S + 'semantic.go', 'internals/undomap/undomap.go', P + 'parser_assignment.go'],
         [('scoped map of variables with undo', 'internals/undomap/undomap.go'), ('compileAssignment, compileMultipleDeclarationStatement', C + 'compiler.go')],
         ['values of every variable in scope, printed at many points'], DIFF, DIFFN),
    prop('C06', 'Calls pass every argument and return every result unchanged',
         'A call binds each argument to the parameter in its position, by value, and yields the results of the return statement that ends '
         'it, in order, for any number and type of parameters and results: scalars, structs, pointers, function values, several '
         'results, no result. This holds for direct calls, method calls x.f(y), calls through variables, fields, elements and parameters that hold '
         'functions, recursion and mutual recursion in any order of declaration; each activation has its own parameters and locals.',
         ['programs', 'histories'], 'all signatures, call graphs, kinds of callee and depths of recursion',
         TESTS + ' No function has more than a few parameters.',
         [C + 'compiler.go', S + 'semantic.go', C + 'compiler_types.go'],
         [('compileFunctionDeclaration, compileFunctionCall, compileReturn', C + 'compiler.go'), ('analyzeFunctionCall', S + 'semantic.go')],
         ['values printed on entry, in recursion and after each call'], DIFF, DIFFN),
    prop('C07', 'Structs, unions, arrays and pointers behave as values and addresses in memory',
         'Reading a field, element or pointee yields what was last stored there through any path (variable, field, index, pointer, '
         'method parameter), and storing changes no other field, element or variable. Structs, unions and arrays are copied '
         'when they are assigned, passed, returned or stored in another one, literals set every member they name whatever the order, and the members of a union share '
         'the same bytes.',
         ['programs', 'histories'], 'all nestings of aggregates and sequences of reads, writes and copies through aliases',
         TESTS + ' Nesting is at most two levels, aliasing is not tested.',
         [C + 'compiler.go', C + 'compiler_types.go', S + 'semantic.go', 'internals/ctypes/types.go'],
         [('getelementptr from field and element positions; loads and stores of whole aggregates', C + 'compiler.go'),
          ('size and layout of types', 'internals/ctypes/types.go')],
         ['the scalars of every aggregate in scope'], DIFF, DIFFN),
    prop('C08', 'Layout, sizes and calls agree with C',
         '@sizeof of every type whose members are integers, floats, pointers, arrays, structs and unions of those is what a C compiler gives '
         'the same declaration, and every member lies at the same offset. Functions declared with extern receive scalar and pointer arguments, also in '
         'variable arguments, and return scalar and pointer results exactly as C does, `pub func` and function pointers can be called from C, and '
         'memory handed over by pointer means the same on both sides.',
         ['inputs', 'programs'], 'all type declarations over those members; all signatures of scalars and pointers, all values; calls in both directions',
         TESTS + ' @sizeof is printed for two types; extern is used for malloc, printf and a few others with 32 bit arguments.',
         [C + 'compiler_types.go', 'internals/ctypes/types.go', C + 'compiler.go', C + 'compiler_utils.go'],
         [('SizeOf and Alignment', 'internals/ctypes/types.go'), ('extern declarations and the extension of narrow arguments', C + 'compiler.go')],
         ['sizes and offsets printed from both sides', 'values printed on both sides of a call'],
         'runtime monitoring: compiled programs exchange random data with C code from gcc or clang; both sides print what they see',
         'Random types and signatures in both languages; sizes, offsets, memory contents, arguments and results are compared in the trace. Structs by value across the '
         'border are not covered (the language has no such guarantee). Trusts gcc and clang.'),
    prop('C09', 'Heap builtins give blocks of the right size and keep their contents',
         '@alloc(T, n) yields n elements of T that are disjoint from every other live block and variable, @realloc(p, n) yields n elements, of which the '
         'first keep their values, @free(p) releases exactly that block. A program that stays within the lengths it asked for makes no '
         'invalid access and no invalid free, for all T and for lengths of every integer type.',
         ['programs', 'histories'], 'all sequences of alloc, realloc, free, reads and writes within bounds, all element types',
         TESTS + ' @realloc is called in one test, nothing looks at memory errors.',
         [C + 'compiler.go', S + 'semantic_builtin.go', 'internals/ctypes/types.go'],
         [('handleAlloc, handleRealloc, handleFree', C + 'compiler.go')],
         ['contents of every live block', 'AddressSanitizer reports on the compiled program'],
         'sanitizers and runtime monitoring: AddressSanitizer on compiled heap histories, contents compared with a reference interpreter',
         'The emitted LLVM module is instrumented with AddressSanitizer and run on random legal histories; also run with the release flags. Trusts clang and ASan.'),
    prop('C10', 'Strings, characters and @print show exactly the bytes of the source',
         'A string literal is the bytes between its quotes, with \\n for a line break and \\c for any other c, followed by a zero, and a character literal the '
         'byte it shows. @print writes its arguments in order, separated by spaces: integers in decimal by the value and signedness of their type, '
         'floats with three decimals, strings as they are. == and < on *i8 compare the strings, + with *i8 joins them.',
         ['inputs', 'programs'], 'all strings of bytes and Unicode, all values of all printable types, any number of arguments',
         TESTS + ' Printed values are ASCII strings and small numbers.',
         [C + 'compiler_format.go', C + 'compiler.go', 'internals/lexer/lexer.go', P + 'parser.go'],
         [('format string of @print', C + 'compiler_format.go'), ('string and character tokens', 'internals/lexer/lexer.go')],
         ['standard output of the compiled program'], 'runtime monitoring: bytes written by compiled programs against a reference model, part of them under AddressSanitizer', DIFFN),
    prop('C11', 'Constants and initial values equal the same expression at run time',
         'A constant expression (a const, also one of another module, local or global, or the initial value of a global) has exactly the value the same expression has at '
         'run time, whatever operators, casts and other constants it consists of, and globals have that value before the first statement of main.',
         ['inputs', 'programs'], 'all constant expressions over literals, constants, operators and casts with defined value',
         TESTS + ' Five constants with one operator each.',
         [C + 'compiler_constant.go', 'internals/eval/constant.go', 'internals/eval/values.go', 'internals/eval/ast.go', S + 'semantic.go'],
         [('folding of constants', C + 'compiler_constant.go')],
         ['standard output of the compiled program'], DIFF, DIFFN),
    prop('C12', 'Anonymous functions run their body with the values they captured',
         'An anonymous function may be created, stored, passed, returned and called like any function value, also inside another one. A '
         'local variable it uses is captured by value when the expression is evaluated: later changes outside are not seen inside, changes inside '
         'are not seen outside and persist between its calls; evaluating the same expression again overwrites the captured values of that '
         'expression (as the tutorial documents), and of no other.',
         ['programs', 'histories'], 'all programs that create, nest, store, pass and call anonymous functions',
         TESTS + ' 0capture.cd has one program, nesting is not tested.',
         [C + 'compiler.go', S + 'semantic.go', 'docs/tutorials/tutorial_01.md'],
         [('list of captured variables of an anonymous function', S + 'semantic.go'), ('compileAnonymousFunction: one global per captured variable', C + 'compiler.go')],
         ['values printed inside and outside the anonymous functions'], DIFF, DIFFN),
    prop('C13', 'Imports give access to exactly one module, per path and types',
         'import m, T..., "path" makes the functions, variables, constants and types of exactly the file at that path (relative to the importing '
         'file) available as m.name and @m.Type, whatever names other modules and the importing file use. A file imported several times with the same '
         'types, by whatever spelling of its path, is one module with one copy of its globals and types; with different types it is another '
         'instance, in which type T stands for the given types. Methods declared in a module work on its types in every file that imports it.',
         ['programs', 'configurations'], 'all acyclic graphs of files that import each other, with and without type parameters, with clashing names',
         TESTS + ' The tests import a handful of files, no two of which share names or state.',
         [S + 'semantic.go', P + 'parser.go', C + 'compiler.go', 'internals/ast/mod.go', 'internals/undomap/undomap.go'],
         [('analyzeImport: one semantic analysis per path and types', S + 'semantic.go'), ('identifiers with the id of their module', 'internals/ast/mod.go'),
          ('compileImportStatement', C + 'compiler.go')],
         ['standard output of the compiled program'], DIFF, DIFFN),
    prop('C14', 'Exactly the well-typed programs are accepted, and what is accepted is valid code',
         'A program is accepted if and only if it obeys the typing rules: the value of a declaration with a type, assignment, argument, return, struct '
         'field or list element has exactly the type its place requires (a union also takes values of its member types in declarations, assignments and '
         'struct fields); both operands of an arithmetic or comparison operator have the same type; conditions, indices, dereferences, field accesses, calls, '
         'methods, ++ and casts only apply to types that have them; the numbers of arguments, values and names agree; every name is declared and in scope; '
         'constants are not assigned; break and continue are inside loops; a function with a result returns on every path; types, external functions and imports are '
         'declared at the top level, statements are inside of functions, and no name is declared twice there; no type contains itself by value; void is only a result, '
         'and several values and void are not arguments; @asm takes a string literal, numbers and pointers. The code emitted for '
         'every accepted program passes the LLVM verifier of the C++ driver.',
         ['inputs', 'programs'], 'all pairs of a context with a required type and an expression with an actual type, in all nestings; all programs for the validity of code',
         TESTS + ' The tests of the checker contain a few correct programs and about ten wrong ones.',
         [S + 'semantic.go', S + 'semantic_builtin.go', 'internals/ctypes/types.go', C + 'compiler.go'],
         [('areTypesEqual, analyzeExpression and the analyze functions of statements', S + 'semantic.go'), ('casts and builtins', S + 'semantic_builtin.go')],
         ['verdict of the compiler (code or errors)', 'verdict of the LLVM verifier on the emitted code'],
         'runtime monitoring: verdicts of the real checker on random programs against a model of the typing rules; LLVM verifier on the code of accepted programs and mutants',
         'Trusts the model of the typing rules in vf/typing.py and of declarations in vf/decls.py, which cover one possibly wrong statement or declaration per program, and the LLVM verifier.'),
    prop('C15', 'Every input gets an answer: code, or errors with a position',
         'For every sequence of bytes given as a source file (nesting up to a thousand levels), the compiler ends by itself with either emitted code or at least one '
         'error that names a line and column of the file. It never panics, exhausts its stack, hangs, or reports an internal error.',
         ['inputs'], 'all byte strings, in particular truncated, mutated, deeply nested, recursive and self-contradicting programs',
         TESTS + ' The tests of errors contain about ten wrong programs.',
         ['internals/lexer/lexer.go', P + 'parser.go', S + 'semantic.go', S + 'semantic_builtin.go', C + 'compiler.go', C + 'compiler_constant.go'],
         [('parser loops that must advance at every token', P + 'parser.go'), ('analyzeExpression and its type assertions', S + 'semantic.go'),
          ('exitInternalError', C + 'compiler.go')],
         ['verdict, errors and panics of each compilation', 'time'],
         'runtime monitoring: hostile, mutated and nested inputs through the real compiler in process, watching for panics, fatal errors, hangs and errors without a position',
         'A hang is an input that takes over 20 s. Inputs are shorter than some kilobytes.'),
    prop('C16', 'Errors are reported where the mistake is',
         'When exactly one statement of a program breaks a rule, every error of the checker is on a line of that statement, whatever comments, blank lines and texts of '
         'several lines surround it. When a token is illegal, the first syntax error is on its line; when a correct program is changed at one token, the first '
         'syntax error is not before it. When the mistake is in an imported file, the errors name the lines of the imports that lead to it, '
         'the path of the file, and then the lines inside of it.',
         ['inputs', 'programs'], 'all programs with one mistake, all positions and layouts, all chains of imports',
         TESTS + ' No test looks at the line of an error.',
         ['internals/lexer/lexer.go', P + 'parser.go', S + 'semantic.go', S + 'semantic_errors.go', P + 'parser_errors.go'],
         [('line counting', 'internals/lexer/lexer.go'), ('errorWithStatement, addErrorMessage: token of the error', S + 'semantic.go')],
         ['errors of the compiler'],
         'runtime monitoring: positions in the errors of the real compiler for random programs with one known mistake',
         'Only lines are judged: columns differ by one between the first and later lines. Trusts the model of the typing rules of vf/typing.py.'),
    prop('C24', 'A function with a result returns on every path, and what that path says',
         'A function (named, anonymous or method) or block expression with a result is accepted if and only if every path through its body returns: its '
         'last reached statement is a return or @unreachable, an if with an else (or a switch with a default) all of whose branches return, or a block or #if '
         'that does; loops never count. Statements after one that returns are ignored. Called with any arguments, an accepted function gives the '
         'value of the return statement that its conditions lead to, and a return inside of a block expression or inner function only ends that.',
         ['programs', 'inputs'], 'all nestings of if, switch, for, blocks, block expressions and functions, all ways through them',
         TESTS + ' No test has a function that lacks a return.',
         [S + 'semantic.go', C + 'compiler.go'],
         [('s.returns in the analysis of statements', S + 'semantic.go'), ('blocks that are already terminated', C + 'compiler.go')],
         ['verdict of the compiler', 'results of the compiled functions'],
         'runtime monitoring: verdicts and results of random bodies against a model of the rule and of the statements', DIFFN),
    prop('C28', 'The std array module behaves as a growing sequence',
         'std/array.cd instantiated with any type T keeps the sequence of the values pushed: push appends, pop removes and returns the last value, '
         'get and get_ref give the element of an index, for_each visits all elements in order, map applies the function to each of them, with_capacity '
         'starts empty, and the contents survive any number of reallocations. pop of an empty array ends the program.',
         ['histories', 'inputs'], 'all histories of these operations over arrays of scalars, pointers and structs',
         TESTS + ' The test pushes three numbers.',
         ['std/array.cd'], [('push, pop, get, for_each, map', 'std/array.cd')],
         ['standard output and exit status of the compiled program'],
         'runtime monitoring: histories of operations of compiled programs compared with a list model, part of them under AddressSanitizer', DIFFN),
    prop('C17', 'Compilation depends on the source text alone',
         'Compiling the same files gives the same answer every time: the same verdict, the same errors, character by character, or the same code up to '
         'the names the compiler invents for globals and values. It does not matter how often the program was compiled before, what else the same '
         'process compiled before, in which directory the files are, nor by which path the source was named.',
         ['histories', 'programs'], 'all accepted and rejected programs, all sequences of compilations',
         TESTS + ' Maps are iterated in a random order and module caches and counters are global; no test compiles anything twice.',
         [S + 'semantic.go', C + 'compiler.go', P + 'parser.go'],
         [('paths, importsInProgress, ResetPaths', S + 'semantic.go'), ('random names of globals and structs', 'pkg/random/string.go'), ('order of definitions', C + 'compiler.go')],
         ['verdicts, errors and emitted code of repeated compilations'],
         'runtime monitoring: differential comparison of repeated compilations in several processes, directories and orders',
         'Invented names are compared up to renaming in order of appearance. Imports are found relative to the working directory and the context directory.'),
    prop('C25', 'Block expressions yield the value of the return that ends them',
         'A block expression :T { ... } can stand wherever a value of type T can, for every type T (numbers, pointers, structs, unions, arrays, functions), also '
         'inside of others, in loops, conditions, arguments and branches. It runs its statements once per evaluation, at its place in the order of '
         'evaluation, yields the value of the return statement that is reached (also from inside of branches, switches, loops and blocks of it), has its own scope, and '
         'sees and changes the variables around it. Returns inside of it never end the function; break and continue inside of its loops only concern these.',
         ['programs', 'inputs'], 'all nestings of block expressions with other statements and expressions, all types, all ways through them',
         TESTS + ' The tests have three block expressions, none with a branch.',
         [C + 'compiler.go', S + 'semantic.go', P + 'parser.go'],
         [('compileBlockExpression, compileReturn', C + 'compiler.go'), ('analyzeExpressionBlock', S + 'semantic.go'), ('parseBlockExpression', P + 'parser.go')],
         ['standard output of the compiled program'],
         'runtime monitoring: traces of random programs full of block expressions compared with an interpreter of the source semantics', DIFFN),
    prop('C18', 'The commands build and run what the project says',
         'candice build makes the executable (or, with binary "obj", the object) named in candice.json from the program in its entrypoint, candice run also runs it, '
         'and the compiler command makes the executable that it is told to; for both kinds, with and without --release, with the flags of the project and of '
         '@add_compiler_flag in any file, the executable behaves as its program, whatever was built before, and run passes on its input, output and status. If the project or '
         'the program is wrong, the command reports an error and no success, runs nothing, and leaves the executable that was there before as it was (unless '
         'only linking failed). No other file of the project changes. The project may be named by any path, and its own paths are relative to it. candice init makes a project '
         'that builds and runs, and changes no file that is there.',
         ['histories', 'configurations', 'programs'], 'all histories of edits and commands, all configurations of the project, correct and wrong',
         TESTS + ' No test runs a command.',
         ['internals/build/builder.go', 'internals/build/config.go', 'internals/program/program.go', C + 'compiler.go', C + 'compiler_rest.go'],
         [('ExecuteProject', 'internals/build/builder.go'), ('GenerateExecutableCXX, GenerateExecutableExperimental', C + 'compiler.go'), ('Init', 'internals/program/program.go')],
         ['output of the commands', 'files of the project', 'output and status of the executables'],
         'runtime monitoring: random histories of edits and commands on real project directories compared with a model of the project',
         'The commands end with status 0 even when they report an error; this is how they are. Only Linux and clang.'),
    prop('C19', 'Errors name and mark the exact place of a token',
         'Every error and warning names the line and the column (from 1, in bytes) of the first byte of a token of the file, or of its end. A syntax error also names the token that '
         'is there, shows its line as it is in the file, and marks the token in it. The first error about an illegal token is at that token, and the first error of a program with one wrong statement is inside of that statement. White space, tabs, carriage returns, comments and '
         'strings and characters with line breaks before it do not matter.',
         ['inputs'], 'all texts with errors, all layouts',
         TESTS + ' The tests of the lexer do not look at places.',
         ['internals/lexer/lexer.go', P + 'parser.go', S + 'semantic.go', 'internals/token/tokens.go'],
         [('NextToken, readString, RetrieveLine', 'internals/lexer/lexer.go'), ('addErrorMessage, retrieveCurrentLineMessage', P + 'parser.go')],
         ['messages of the parser and the checker'],
         'runtime monitoring: places in the messages of the real parser and checker compared with the tokens of random wrong texts in random layouts',
         'Files of ASCII characters. Which token of a wrong statement is named is not decided (C16 decides its lines). Places behind half a character literal are not looked at.'),
    prop('C20', 'Builds that overlap or are interrupted do not affect other builds',
         'Whatever builds run at the same time in one directory (candice build and run of both kinds, the compiler command, with different outputs), in whatever order their steps '
         'interleave, each one makes and runs the executable of its own program as it was when the build read it, or reports its own error. A build that was killed at any moment leaves nothing '
         'that changes a later build. Builds that end leave no files but their results.',
         ['schedules', 'crash_points', 'histories'], 'all interleavings of any number of builds, all moments of an interruption',
         TESTS + ' The tests build one program after another.',
         [C + 'compiler.go', C + 'compiler_rest.go', 'internals/build/builder.go', 'internals/program/program.go'],
         [('GenerateExecutableCXX, GenerateExecutableExperimental', C + 'compiler.go'), ('GenerateObjectLLVM', C + 'compiler_rest.go')],
         ['output and status of the executables', 'output of the commands', 'files in the directory'],
         'runtime monitoring: overlapping real builds with a delayed C compiler, kills at random moments and sources changed behind them; executables compared with their programs',
         'Interleavings are sampled by delays of the C compiler and of the starts. The wrapper around clang records which builds overlapped. Builds with the same output are not covered.'),
    prop('C21', 'candice tree draws the structure of the text',
         'For every text that parses, candice tree draws exactly the tree of its syntax: every statement, expression, type and name once, under the '
         'construct that contains it, in the order of the text, operators grouped by their precedence and parentheses, with connectors that line up. For every other text it '
         'ends normally with an error.',
         ['inputs', 'programs'], 'all texts, all nestings of all constructs',
         TESTS + ' The tests of the printer draw two short texts.',
         ['internals/tree_printer/printer.go', P + 'parser.go', P + 'parser_precedence.go', 'internals/lexer/lexer.go'],
         [('Process, processExpression, ConnectString', 'internals/tree_printer/printer.go'), ('all of the parser', P + 'parser.go')],
         ['output of candice tree'],
         'runtime monitoring: drawings of random texts compared with the tree that each was generated from; mutated texts must be answered',
         'Names of structs and of imported modules, declared types and the module of a struct literal are not drawn. The structure of #if blocks is that of their branch taken.'),
    prop('C22', 'Texts outside of the grammar are rejected by the parser',
         'The parser reports an error for every text in which an expression, a type or a statement does not follow the grammar: an operator without its operands, lists without or with '
         'too many commas, a declaration without its name, type or value, a header without its parts, a statement begun by the keyword of another, numbers, characters and array lengths that are '
         'none, builtins with too few or too many arguments, and every text whose brackets do not match. It accepts the same text with a right form in the same place.',
         ['inputs'], 'all texts, all forms of the grammar in all places',
         TESTS + ' No test gives the parser a wrong text and looks for an error.',
         [P + 'parser.go', P + 'parser_builtin.go', 'internals/lexer/lexer.go'],
         [('expect, parsePrefix and the parse functions', P + 'parser.go'), ('numbers and characters', 'internals/lexer/lexer.go')],
         ['errors of the parser, or none'],
         'runtime monitoring: verdict of the real parser on random texts with one wrong form (and on twins with the right form), and with brackets that do not match',
         'What the parser has always left optional (semicolons between statements on their own, braces around one statement, a last comma in a list, the result type) is not counted as wrong.'),
    prop('C26', 'The language server answers every request and follows the text',
         'Whatever messages a client sends, the language server answers every request exactly once, notifications never, writes nothing but replies to its output, '
         'says in its reply to initialize that it wants whole texts, and lives until its input ends. After each change of a text it writes the tree of the newest text to its log, in '
         'the order of the changes, whatever the texts before were, also wrong or partial ones. There are no data races.',
         ['histories', 'inputs', 'schedules'], 'all sequences of messages, all texts, however the messages are cut into pieces',
         TESTS + ' The language server has no tests.',
         ['cmd/autocomplete/main.go', 'internals/autocomplete/server/server.go', 'internals/autocomplete/server/on_change.go', 'internals/autocomplete/server/on_initialize.go'],
         [('handler of the connection', 'cmd/autocomplete/main.go'), ('onChange', 'internals/autocomplete/server/on_change.go'), ('onInitialize', 'internals/autocomplete/server/on_initialize.go')],
         ['replies of the server', 'its log', 'reports of the race detector'],
         'runtime monitoring: random sessions with the server built with the race detector, its replies and log checked against the messages sent',
         'Messages are well framed JSON.'),
    prop('C27', 'The stack a loop needs does not depend on its iterations',
         'A loop that runs a million times needs no more stack than one that runs a few times, whatever its iterations declare, build, call, compute '
         'in the header, or leave by break and continue, and wherever it stands: locals, literals, temporaries and results of calls of one iteration are '
         'given back or reused in the next one. Its output is that of every iteration.',
         ['inputs', 'programs'], 'all loops, any number of iterations',
         TESTS + ' None of their loops runs more than some dozens of times.',
         ['internals/compiler/compiler.go', 'internals/compiler/compiler_utils.go'],
         [('newAlloca', 'internals/compiler/compiler_utils.go'), ('compileFor', 'internals/compiler/compiler.go')],
         ['end of the stack of the compiled program, iteration by iteration', 'its output'],
         'runtime monitoring: a C function called by every iteration of random loops records where the stack ends and stops the program when it moves', DIFFN),
    prop('C23', '#if compiles a block exactly when its condition is true',
         'The statements and declarations of a #if whose condition (an integer, or the name of a system or architecture) is not zero are compiled as if they were written '
         'without it: same scope, same order, same meaning, at the top level, in functions and inside of other #if, in the main file and in modules. Those of the others only have to parse: they '
         'declare nothing, import nothing, are not checked and produce no code. Any other condition is an error.',
         ['inputs', 'programs'], 'all programs and all places of a #if',
         TESTS + ' One test has a #if.',
         ['internals/parser/parser.go', 'internals/eval/constant.go', 'internals/eval/values.go', 'internals/semantic/semantic_steps.go', 'internals/compiler/compiler_steps.go'],
         [('parseMacroIf', 'internals/parser/parser.go'), ('EvaluateConstantExpression', 'internals/eval/constant.go'), ('constants', 'internals/eval/values.go'),
          ('fillTypes', 'internals/semantic/semantic_steps.go'), ('compileStructTypes', 'internals/compiler/compiler_steps.go')],
         ['verdict of the compiler', 'output of the compiled program'],
         'runtime monitoring: outputs of random programs with #if added compared with an interpreter that knows the programs without them', DIFFN),
]

NOT_APPLICABLE = []
