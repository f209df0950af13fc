CG = 'libs/compiler/codegen.c'
LL = 'libs/compiler/llvmgen.c'
MI = 'libs/compiler/mipsgen.c'
PA = 'libs/compiler/parser.c'
BU = 'libs/compiler/builder.c'
LX = 'libs/compiler/lexer.c'

prop('C01', 'Programs compiled for the virtual machine do what the language says',
     'Executing the image that the compiler writes for an accepted program prints exactly the output, and ends in exactly the way, that the language documentation prescribes for that program and its input. '
     'This covers arithmetic, conversions, control flow, functions, arrays, structures, pointers, strings, enumerations and the built-in functions. '
     'Programs whose meaning the language leaves open (overflow, division by zero, reading what was never assigned, effects that depend on the order of evaluation) and the recorded known findings are outside.',
     ['programs', 'inputs'], 'for every well-defined RuC program and every input of it',
     'The repository\'s tests only compile a fixed list of programs; the virtual machine is not there, so nothing is ever executed and no output is compared.',
     [CG, 'libs/compiler/instructions.c', BU, PA, 'libs/compiler/syntax.c', 'libs/compiler/AST.c'],
     [('translation of expressions, statements and declarations to instructions', CG), ('implicit conversions, constant folding and type rules', BU), ('mapping of operators to instructions', 'libs/compiler/instructions.c')],
     'property-based testing: typed random programs against a reference interpreter written from the documentation',
     'generated programs, executed with the harness\'s interpreter of the instruction set', ['the image file and its execution'])

prop('C02', 'LLVM code does what the language says',
     'Executing the LLVM code that the compiler writes for an accepted program prints exactly the output that the language documentation prescribes, and the code passes LLVM\'s verifier. '
     'The property is claimed for what this back end implements: integer and floating arithmetic, comparisons and logic in conditions, loops, functions, arrays, structures, local pointers, and formatted printing.',
     ['programs', 'inputs'], 'for every well-defined program inside the subset the LLVM back end implements',
     'The repository\'s tests only compile a fixed list of programs for LLVM and never run the result or compare it.',
     [LL, 'libs/compiler/llvmopt.c', 'libs/compiler/llvmgen.h', BU],
     [('translation to LLVM instructions and registers', LL), ('rewriting of the tree before translation', 'libs/compiler/llvmopt.c')],
     'property-based testing: typed random programs, LLVM\'s verifier and JIT against the reference interpreter',
     'generated programs of the supported subset', ['the .ll file and its execution'])

prop('C04', 'Every image written for the virtual machine is well formed',
     'Whatever program is accepted, the image written for it has a header that agrees with its tables, consists only of known instructions with complete operands, and every jump, call, function entry, string and variable reference lies inside the code, table or area it refers to. '
     'On no path through a function is more taken from the operand stack than was put there since its start, or since the call or initialiser being prepared began; wherever paths meet, the same calls and initialisers are being prepared.',
     ['programs'], 'for every program the compiler accepts',
     'The tests check only that compilation succeeds; no test reads an image back.',
     [CG, 'libs/compiler/instructions.c', 'libs/compiler/syntax.c'],
     [('reservation and later patching of jump targets', CG), ('export of the header and tables', CG), ('forms of instructions that leave or discard a value', 'libs/compiler/instructions.c')],
     'property-based testing: random programs, validity predicate over the whole image (decoder plus abstract stack interpretation)',
     'every image is decoded completely and every path of it followed', ['the image file'])

prop('C05', 'The meaning of a program does not depend on how it is spelled',
     'White space, line ends, comments, English or Russian spelling of keywords and built-in functions in lower or upper case, redundant parentheses, the base an integer is written in, splitting of a string into adjacent literals and consistent renaming of identifiers do not change what is generated for any target. '
     'A program accepted in one spelling is accepted in all.',
     ['programs', 'inputs'], 'for every program and every other spelling of it',
     'The tests contain one spelling of each program; the relation between two spellings is never examined.',
     [LX, 'libs/compiler/keywords.c', 'libs/compiler/token.c', PA, 'libs/utils/uniscanner.c'],
     [('scanning of tokens, comments and separators', LX), ('table of keywords in both languages', 'libs/compiler/keywords.c'), ('joining of adjacent literals', LX)],
     'property-based testing: metamorphic relation between two spellings of one random program, on all three targets; the spelling table exhaustively',
     'pairs of spellings of generated programs')

prop('C06', 'Literals denote the value they spell',
     'An integer literal in base 2, 8, 10 or 16 or with a decimal exponent, a floating literal, a character literal and a string literal, with escapes and any Unicode characters, has exactly the value and length it spells when the compiled program uses it. '
     'Floating literals may differ by a relative error of 1e-13; integers above the largest int and \\0 inside strings are recorded findings.',
     ['inputs'], 'for every literal that fits its type',
     'Tests use a few dozen literals and never look at the value that reaches the generated code.',
     [LX, 'libs/utils/utf8.c', 'libs/utils/strings.c', 'libs/utils/numbers.c', CG, 'libs/utils/item.c'],
     [('conversion of digits and exponents', LX), ('decoding of characters and escapes', LX), ('storing of floating values in table items', 'libs/utils/item.c'), ('string table', 'libs/utils/strings.c')],
     'property-based testing: random literals, value computed exactly by the generator, compared with what the compiled program prints',
     'programs of up to 16 random literals')

prop('C07', 'A constant expression has the value run-time evaluation would give',
     'An expression of constants gives the same value whether it is evaluated by the compiler (as an operand, an enumeration value or a case label) or by the running program with the same values held in variables, and that value is the one the language defines.',
     ['programs', 'inputs'], 'for every constant expression with a defined value',
     'Tests contain few constant expressions and never compare the folded value with an evaluation.',
     [BU, PA, 'libs/compiler/AST.c', CG],
     [('folding of unary, binary and conditional expressions', BU), ('enumeration values and case labels', PA)],
     'property-based testing: random constant expressions, differential between folded and hoisted evaluation, and against exact arithmetic',
     'random constant expressions in every context that takes one')

prop('C08', 'Operators group by the documented precedence and associativity',
     'An expression written with only the parentheses the grammar requires means the same as the fully parenthesised one: the code generated for both is identical for every target, and its value and side effects are those of the intended grouping, for every mixture of unary, postfix, binary, conditional and assignment operators.',
     ['programs'], 'for every expression and every mixture of operators',
     'Tests hold a few mixed expressions and do not check their grouping.',
     [PA, 'libs/compiler/operations.c', BU],
     [('precedence climbing in the expression parser', PA), ('precedence table', 'libs/compiler/operations.c')],
     'property-based testing: random operator trees printed with fewest and with all parentheses, compared with each other and with a model evaluator',
     'expression trees up to depth 5 over variables, elements, members, pointers and calls')

MP = 'libs/macro/parser.c'
prop('C12', 'A macro call is replaced as its definition says',
     'After preprocessing, every call of an object-like, function-like or multi-line macro has been replaced by its body with the arguments put in place of the parameters, stringizing and token pasting applied, and the result searched for macros again; definitions, redefinitions and #undef take effect from where they stand, and literals, comments and names that merely contain the name of a macro are left alone. '
     'A program and the same program with parts of its text moved into macros therefore compile to the same image.',
     ['programs', 'inputs'], 'for every set of macro definitions and every text that uses them',
     'The tests preprocess a fixed list of files, so only a few combinations of nesting, arguments, operators, redefinition and layout are ever looked at.',
     [MP, 'libs/macro/storage.c', 'libs/utils/map.c'],
     [('reading of calls and their arguments, substitution and rescanning', MP), ('# and ## and masks of parameters', MP), ('table of macros and reading of names', 'libs/macro/storage.c')],
     'property-based testing: random macro programs against a reference model of the preprocessor; metamorphic relation between a program and the same program rewritten with macros',
     'macro programs and rewritten programs')

prop('C13', 'Conditional groups, loops and expressions of the preprocessor',
     'Expressions in #if, #elif, #while and #eval have the value exact arithmetic gives with the precedence of C; exactly the group selected by the conditions takes effect, whatever stands in the skipped ones, and a #while group or a recursive macro is repeated exactly as often as its condition tells. '
     'A malformed expression, a division by zero, an unmatched or misplaced directive and an endless repetition are reported and the run fails.',
     ['programs', 'inputs'], 'for every nesting of conditional groups and loops and every expression of 64-bit values that do not overflow',
     'The tests preprocess a fixed list of files and evaluate a few dozen expressions; pairs of operators, skipped text and nestings are not varied.',
     [MP, 'libs/macro/computer.c', 'libs/macro/keywords.c'],
     [('precedence and evaluation of expressions', 'libs/macro/computer.c'), ('choosing and skipping of groups, repetition', MP), ('table of directives in both languages', 'libs/macro/keywords.c')],
     'property-based testing: random expressions (and every pair of binary operators), random nests of groups with junk in what is skipped, and loops, against a reference model; mutations that must be rejected; metamorphic relation between rewritten programs',
     'files of expressions, groups and loops, and rewritten programs')

prop('C14', 'Included files and command-line definitions act as if written in place',
     'An included file takes effect where the directive stands, once per run, and is searched for next to the including file and then in the -I directories in their order (the other way round for <>), at any nesting up to 32 files. '
     'A -D definition acts like a #define before the first line, the files of the command line act in their order as one text, and a program split over files compiles to the image of the whole. '
     'A file that is missing or nested too deeply, a malformed #include, and a group left open or closed across a file boundary make the run fail.',
     ['programs', 'inputs'], 'for every tree of files, every list of -I directories and -D definitions and every spelling of the paths',
     'The tests include a handful of files from fixed places; search order, nesting, repeated inclusion and combinations of command-line arguments are not varied.',
     ['libs/macro/linker.c', MP, 'libs/macro/macro.c', 'libs/utils/workspace.c', 'libs/utils/strings.c'],
     [('search of included files and the mark of those included', 'libs/macro/linker.c'), ('#include', MP), ('-D definitions and order of files', 'libs/macro/macro.c'), ('normal form of paths', 'libs/utils/workspace.c')],
     'property-based testing: random trees of files with random command lines against a reference model; metamorphic relation between a program and the same program split over files',
     'trees of files and split programs')

prop('C15', 'No input makes the compiler crash, hang or corrupt memory',
     'Whatever stands in the source files and on the command line - well-formed or not, of any octets, long or deep - a run of the compiler ends by itself without an invalid memory access and with one of the documented exit codes. '
     'The exit code is zero exactly when no error was reported.',
     ['inputs', 'fault_sequences'], 'for every content of the files and every command line',
     'Tests hold a few hundred short, mostly well-formed files; broken nesting, damaged encodings, long names and inputs cut short are hardly among them, and they run without sanitizers.',
     [LX, PA, 'libs/compiler/syntax.c', BU, MP, 'libs/macro/error.c', 'libs/compiler/errors.c', 'libs/utils/uniscanner.c', 'libs/utils/locator.c', 'libs/utils/logger.c', 'libs/utils/workspace.c', 'libs/compiler/compiler.c'],
     [('recovery of the parser after an error', PA), ('skipping of directives and macro arguments', MP), ('building of messages', 'libs/utils/logger.c'), ('reading of characters', 'libs/utils/uniscanner.c'), ('stages and exit codes', 'libs/compiler/compiler.c')],
     'fuzzing: random damage to generated programs and preprocessor files, text from a grammar without semantics, and long or deep input, compiled by a build with AddressSanitizer and UBSan; oracle: orderly end, and exit code in agreement with the diagnostics',
     'files of up to 12000 octets, well-formed ones of up to 80000, all targets, random flags')
UT = 'libs/utils/'
prop('C18', 'The containers of the compiler hold exactly what was put into them',
     'After any sequence of operations the vectors, stacks, hash tables, name maps, string tables, node vectors and syntax trees of the utility library contain exactly the elements, keys, values, order and parent-child relations that the sequence prescribes, however often they have grown. '
     'An access outside the contents is reported the way the interface says and changes nothing; no operation touches memory outside the container.',
     ['histories', 'inputs'], 'for every sequence of operations within the documented preconditions, on containers of every size',
     'The unit tests of the repository do not call the containers directly; programs use them in a few fixed patterns, and growth, reuse of removed records, colliding keys, reordering of trees and indexes out of range hardly occur.',
     [UT + 'vector.c', UT + 'stack.h', UT + 'hash.c', UT + 'hash.h', UT + 'map.c', UT + 'strings.c', UT + 'tree.c', UT + 'node_vector.h'],
     [('growth', UT + 'vector.c'), ('chains and reuse of records', UT + 'hash.c'), ('keys and their storage', UT + 'map.c'), ('storage of strings', UT + 'strings.c'), ('references between nodes, insertion, reordering and removal', UT + 'tree.c')],
     'model-based testing: random sequences of operations on the tree\'s library, compared after every operation with reference models, under AddressSanitizer',
     'sequences of up to 120 operations on six kinds of containers', ['every operation of the containers'])
prop('C19', 'Characters and strings survive every conversion between encodings',
     'Every character is encoded in the shortest UTF-8 form, decoded to itself, and found from any of its octets. CP866 and Windows-1251 strings are converted to and from UTF-8 as the code pages are defined, a character that a page lacks becoming its substitute; Russian text is transliterated letter by letter and everything else is left as it is. '
     'Letters, digits and their upper case are recognised for the Latin and the whole Russian alphabet, and no conversion writes outside a buffer of the size of its result.',
     ['inputs'], 'for every character of Unicode and every well-formed string',
     'The tests are programs whose names and messages use a few Russian letters; the code pages are used on one operating system only, and most of the tables of the conversions are never reached.',
     [UT + 'utf8.c', UT + 'utf8.h', UT + 'logger.c'],
     [('encoding and decoding', UT + 'utf8.c'), ('tables of the code pages', UT + 'utf8.c'), ('transliteration', UT + 'utf8.c'), ('kinds of characters', UT + 'utf8.c')],
     'differential testing: random strings and every single character, converted by the tree\'s library in buffers of exactly the size of the result under AddressSanitizer and by the codecs of Python',
     'every character once; strings of up to 1000 characters', ['every function of utf8.h'])
WSP, CCC, MAC = UT + 'workspace.c', 'libs/compiler/compiler.c', 'libs/macro/macro.c'
prop('C17', 'The command line means the same in every order and every spelling',
     'A run compiles exactly the named files for the target that was asked for, with the search directories, definitions and switches of the command line, wherever these stand among the arguments and however a path is spelled; unknown switches change nothing, and -Wno, -c and -E have their documented effect. '
     'The result goes to the last output file that was named, or else to the default one of the target, and no other file is created, changed or removed. '
     'A file or directory that does not exist, an argument that is too long and a missing output name make the run fail with a diagnostic before anything is written.',
     ['inputs'], 'for every list of arguments',
     'The tests always run the compiler with one or a few files, a fixed target and one output, in one order.',
     [WSP, 'libs/utils/strings.c', CCC, MAC, 'src/main.c'],
     [('reading of arguments', WSP), ('normal form of paths', WSP), ('choice of target, stages, default outputs and executable bit', CCC), ('-E and -D', MAC)],
     'property-based testing: random command lines over a fixed directory; oracle: the run with the same arguments in a canonical order and spelling, the expected exit code of each set of files, and the state of the whole directory before and after',
     'command lines of up to 80 arguments over 18 files', ['every switch, every target, every kind of wrong argument'])
prop('C20', 'Text passes unchanged through files, memory and functions alike',
     'A stream reads from a file, from memory and from a function in the same way, and writes to each of them in the same way: any sequence of reading characters, identifiers, numbers and formatted values, going back, moving, printing and exchanging sources or destinations has the same results, and what was written is, octet for octet, what is found in the file or the buffer however often it has grown. '
     'The position always equals the number of octets that were consumed; a conversion that fails, a move behind the end and an operation on a stream that is not open are reported the way the interface says and consume nothing.',
     ['histories', 'inputs'], 'for every text, including texts that are cut off inside a character, and every sequence of operations on two streams',
     'The unit tests of the repository do not call the streams directly; the compiler uses them with a handful of formats, so that calls with several conversions, conversions that fail, movements and exchanges of other kinds of streams never occur.',
     [UT + 'uniio.c', UT + 'uniscanner.c', UT + 'uniprinter.c'],
     [('sources, destinations, their exchange and positions', UT + 'uniio.c'), ('growth of the output buffer', UT + 'uniio.c'), ('formatted reading', UT + 'uniio.c'), ('characters, identifiers, numbers and going back', UT + 'uniscanner.c'), ('printing', UT + 'uniprinter.c')],
     'model-based testing: random sequences of operations on two streams of the tree\'s library, compared after every operation with a model (text, position, kind) and with the formatted input and output of the C library, under AddressSanitizer',
     'sequences of up to 80 operations on files, buffers and functions', ['every operation of the streams'])
prop('C21', 'The width of numbers in an image changes how they are stored and nothing else',
     'With -i64 to -i8 and -u64 to -u8 an image has the same instructions, operands and tables as without; only the floating constants are split into as many numbers as the width asks for, low part first, and addresses are moved accordingly. '
     'An image is written if and only if every number of its tables lies in the range of the chosen type; otherwise, and when two widths are asked for, the run fails with the diagnostic that the tables cannot be compressed. '
     'LLVM and MIPS output do not depend on the width, and 64-bit and floating values survive storing and restoring in every width.',
     ['programs', 'configurations', 'inputs'], 'for every program, every width and every 64-bit value',
     'The tests compile every program with the default width only.',
     [UT + 'item.c', UT + 'item.h', 'libs/compiler/codegen.c'],
     [('range of each type, storing and restoring', UT + 'item.c'), ('floating constants and literals', 'libs/compiler/codegen.c'), ('check of the tables', 'libs/compiler/codegen.c')],
     'metamorphic testing: random programs, some padded so that a number or an address lies at the limit of a width, compiled with every width; the default image is taken apart and stored anew by a model; random values through the functions for numbers under AddressSanitizer',
     'programs of up to a few hundred lines with images of up to 33000 cells', ['unsigned widths always fail, as the table of types holds negative numbers'])
prop('C22', 'A program may be of any size',
     'What a program does, for the virtual machine and for LLVM, does not change with how much is declared and written besides it: types, functions, variables, enumerators, strings, statements. '
     'A construct means the same with one part and with thousands: arguments, cases, elements of an initialiser, operands, characters of a string or a name, levels of nesting, functions in a chain of calls. Whatever its size, the image stays well formed.',
     ['programs'], 'for every program, whatever is added to it, and constructs of every size',
     'The programs of the tests fit a screen, far from every limit and every number the tables of the compiler treat specially.',
     ['libs/compiler/syntax.c', CG, 'libs/compiler/llvmgen.c', 'libs/compiler/parser.c'],
     [('table of identifiers: kinds and displacements', 'libs/compiler/syntax.c'), ('instructions and operands told apart', CG), ('arguments, cases and types', 'libs/compiler/llvmgen.c')],
     'property-based testing: metamorphic padding of random programs with a reference interpreter, generated large constructs with known output',
     'programs with thousands of added declarations and statements, constructs of thousands of parts', ['programs', 'the image file', 'IR'])

prop('C23', 'A failed file operation is reported and never passes for a complete result',
     'When a file cannot be opened, read to its end, written completely or closed, the run says so, ends with a non-zero exit code and does not mark what is left of the output as executable; a failure that concerns the sources leaves an earlier output as it was. '
     'When a run ends with exit code zero, the output is complete and the same as without any disturbance, even if files are delivered in small pieces or may only be read.',
     ['fault_sequences'], 'for every file of a run, every place at which a failure can occur and every set of permissions',
     'No test makes an operation of the file system fail.',
     [UT + 'uniio.c', UT + 'uniprinter.c', CCC, MAC, 'libs/macro/linker.c'],
     [('opening, reading, writing and closing of files', UT + 'uniio.c'), ('stages, exit codes and executable bit', CCC), ('sources and included files', 'libs/macro/linker.c'), ('preprocessed text as output', MAC)],
     'property-based testing with fault injection: random programs of several files compiled while open, read, write or close of a random file fails at a random octet, with limits of the file size and as a user without permissions; oracle: exit code, diagnostics and the output of the undisturbed run',
     'programs of up to a dozen files, faults at every octet of every file', ['every kind of failure of the standard library used for files'])
prop('C09', 'Programs that keep the typing and scoping rules are accepted; others are refused',
     'A program whose every operand, assignment, argument, initialiser, returned value, condition, array bound, label and name keeps the rules of the language is compiled; a program that breaks one of these rules is refused with a diagnostic and a non-zero exit code. '
     'This includes the rules on constants (nothing declared const can be changed, not even through members, elements or pointers), on visible names (blocks, hiding, redeclaration, prototypes) and on brackets that are not closed.',
     ['programs'], 'for every program, every operator, every combination of operand types, and every nesting of scopes',
     'The rules are a product of operators, operand types, qualifiers and contexts; tests try some hundred points of it, mostly one error each.',
     ['libs/compiler/builder.c', 'libs/compiler/parser.c', 'libs/compiler/syntax.c', 'libs/compiler/expression.c', 'docs/Language.md'],
     [('checks of operands, assignments, calls and initialisers', 'libs/compiler/builder.c'), ('declarations, types, statements and scopes', 'libs/compiler/parser.c'), ('types and identifiers', 'libs/compiler/syntax.c')],
     'property-based testing: random operators over operands of every type, declarations, scopes, labels and statements, judged by a model of the typing rules written from the documentation; both verdicts are checked, failures are reduced to one function',
     'programs of up to 40 functions, half of them wrong in one place', ['rules the documentation leaves open'])
prop('C11', 'Diagnostics name the place of the error in the files as they were written',
     'Every diagnostic names the file, line and column (in characters) of the token it is about, in the file as the user wrote it, and shows that line with the token marked; a token that comes out of a macro is located at the use of the macro. '
     'Included files, uses of macros, comments and statements over several lines, skipped or repeated groups, definitions and several source files in front of an error do not move it, and diagnostics come in the order of the program, one for each error.',
     ['programs', 'inputs'], 'for every error, and every arrangement of files, macros, comments, directives and line breaks around it',
     'Tests only look at exit codes; no test checks a place, and every construct in front of an error is a chance to lose count.',
     [UT + 'locator.c', UT + 'logger.c', 'libs/macro/parser.c', 'libs/macro/error.c', 'libs/compiler/reporter.c', 'libs/compiler/lexer.c'],
     [('marks of places in the preprocessed text and their search', UT + 'locator.c'), ('printing of the line and the mark', UT + 'logger.c'), ('counting of lines in the preprocessor', 'libs/macro/parser.c'), ('locations of tokens', 'libs/compiler/lexer.c')],
     'property-based testing: random files that include each other, with macros, comments, loops and skipped groups, in which random statements are wrong at a marked token; oracle: the marks, in order, against all diagnostics, lines shown and marks printed',
     'programs of up to three source files and dozens of included files with up to a hundred errors', ['which token of a wrong statement is named, for kinds of errors that are not generated'])
prop('C16', 'The outcome of a compilation depends on its input alone',
     'Compiling the same files with the same arguments always gives the same exit code, the same diagnostics and the same output, octet for octet. '
     'Neither the contents of unused memory, nor compilations done before in the same process, nor the kind of build (Debug or Release) change any of it.',
     ['inputs', 'histories', 'configurations'], 'for every input, every history of earlier compilations in the process, and every content of uninitialised memory',
     'A test runs one input once in a fresh process; a read of memory that was never written usually finds zero there.',
     [CCC, 'libs/compiler/syntax.c', 'libs/compiler/llvmgen.c', 'libs/compiler/mipsgen.c', 'libs/compiler/codegen.c', UT + 'vector.c', UT + 'uniio.c', 'libs/macro/parser.c'],
     [('creation of tables and state', 'libs/compiler/syntax.c'), ('growth of tables', UT + 'vector.c'), ('state of code generation', 'libs/compiler/llvmgen.c'), ('state of the preprocessor', 'libs/macro/parser.c')],
     'property-based testing: random programs, damaged programs and preprocessor inputs compiled three times, by the Release build in a new process, by the Debug build, and by a build that poisons stack and heap after up to 15 other compilations in the same process; oracle: equality of exit code, diagnostics and output',
     'inputs of up to 12000 octets for every target', ['inputs that never end', 'Debug assertions of the unfinished MIPS back end'])
