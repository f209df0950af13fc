fixed('C01', 'booleans through an address', 'an element of a bool array, or a bool reached through an address, was loaded as a two-cell floating value',
      S(M('\tbool a[3] = {true, false, true};\n\tint i = 1;\n\tif (a[i]) print("bad"); else print("good");\n\tprint(a[2], a[0]);'), 'goodtruetrue'))
fixed('C01', 'pointers kept in arrays', 'a pointer kept in an array was used as its own address',
      S(M('\tint x = 5;\n\tint y = 6;\n\tint *a[2];\n\ta[0] = &x;\n\ta[1] = &y;\n\tprint(*a[0], *a[1]);'), '56'))
fixed('C01', 'control fall from one case', 'control did not fall from one case of a switch into the next',
      S(M('\tint x = 1;\n\tswitch (x)\n\t{\n\t\tcase 1:\n\t\t\tprint("a");\n\t\tcase 2:\n\t\t\tprint("b");\n\t\t\tbreak;\n\t\tdefault:\n\t\t\tprint("c");\n\t}'), 'ab'))
fixed('C01', 'discard the value of %=', 'a statement x %= y (also <<=, >>=, &=, ^=, |=) left a value on the stack',
      S(M('\tint x = 7;\n\tint z = 10 + (x %= 4, 5);\n\tprint(x, z);'), '315'))
fixed('C01', 'value of || true', 'the value of || was the left operand when that is a non-zero integer',
      S(M('\tint x = 7;\n\tbool b = x || false;\n\tif (b == true) print("yes"); else print("no");'), 'yes'))
fixed('C02', 'continue in LLVM', 'continue went back to the body of the loop, without the condition or the increment',
      S(M('\tfor (int i = 0; i < 4; i++)\n\t{\n\t\tif (i == 1) continue;\n\t\tprintf("%i", i);\n\t}'), '023'))
fixed('C02', 'floating constants to LLVM', 'floating constants were written with six decimals',
      S(M('\tfloat x = 0.000000123;\n\tif (x * 1000000.0 > 0.1) printf("yes"); else printf("no");'), 'yes'))
fixed('C02', 'LLVM register for a global', '++, -- and compound assignment took a register for a global identifier of the same number',
      S(M('\tint a[3] = {1, 2, 3};\n\tint i = 2;\n' + '\ta[i]++;\n\ta[i - 1] += 5;\n' * 60 + '\tprintf("%i %i %i", a[0], a[1], a[2]);', ''.join('int g%d = 1;\n' % i for i in range(60))), '1 302 63'))
fixed('C05', 'end a block comment', 'a block comment did not end at the first */ after /**/ or **/, and ended at /*/',
      {'a': M('\tint a = 1;\n\tint b = 2;\n\tprint(a, b);'), 'b': M('\tint a = 1; /**/ int b = 2; /* x **/\n\tprint(a, b);'), 'target': '-VM', 'kind': 'space'})
fixed('C06', 'encode U+0800', 'U+0800-U+0FFF and U+10000-U+3FFFF were encoded with one octet too few or too many',
      [['string', '"\u0800\u0f00\U00010000"', [0x800, 0xf00, 0x10000]]])
fixed('C06', 'terminate an empty string', 'an empty string literal was not terminated in the string table',
      [['string', '"ab"', [97, 98]], ['string', '""', []], ['string', '"c"', [99]]])
fixed('C01', 'do not divide by zero', 'the compiler itself died on 1 / 0 and folded shifts out of range',
      S(M('\tint a = 1;\n\tif (a == 2)\n\t\ta = 1 / 0;\n\tprint(a);'), '1'))

# --- not repaired
known('C01', 'the left operand of a comma that is not an assignment stays on the stack',
      S(M('\tint x = 1;\n\tint z = 10 + (x + 1, 5);\n\tprint(z);'), '15'))
known('C01', 'assignment of arrays makes both names the same array',
      S(M('\tint a[2] = {1, 2};\n\tint b[2] = {3, 4};\n\ta = b;\n\tb[0] = 9;\n\tprint(a[0]);'), '3'))
known('C01', 'a function given as an argument before its definition is called through a wrong address',
      S('int g(int);\nint apply(int (*f)(int), int x)\n{\n\treturn f(x);\n}\n' + M('\tprint(apply(g, 3));') + 'int g(int x)\n{\n\treturn x + 1;\n}\n', '4'))
known('C01', 'an array inside a structure inside a structure is not allocated',
      S('struct I\n{\n\tint a[3];\n};\nstruct O\n{\n\tint k;\n\tstruct I i;\n};\n' + M('\tstruct O o;\n\to.i.a[1] = 5;\n\to.i.a[2] = 6;\n\tprint(o.i.a[1], o.i.a[2]);'), '56'))
known('C02', 'print, printid and getid are accepted and do nothing in LLVM output', S(M('\tint x = 4;\n\tprint(x);'), '4'))
known('C02', 'switch is accepted and left out of LLVM output', S(M('\tint x = 2;\n\tswitch (x)\n\t{\n\t\tcase 1:\n\t\t\tprintf("a");\n\t\t\tbreak;\n\t\tdefault:\n\t\t\tprintf("b");\n\t}'), 'b'))
known('C02', 'a structure initialised with another structure stays uninitialised',
      S('struct P\n{\n\tint x;\n\tint y;\n};\n' + M('\tstruct P a = {1, 2};\n\tstruct P b = a;\n\tprintf("%i %i", b.x, b.y);'), '1 2'))
known('C02', 'the address of a global variable', S('int g = 3;\n' + M('\tint *p = &g;\n\t*p = 5;\n\tprintf("%i", g);'), '5'))
known('C02', 'a logical value used other than as a condition', S('int a = 1;\n' + M('\tbool v = a > 0 && a < 5;\n\tif (v) printf("yes"); else printf("no");'), 'yes'))
known('C02', 'upb of an array parameter', S(M('\tprintf("%i", f(a));', 'int a[4];\nint f(int b[])\n{\n\treturn upb(b);\n}\n'), '4'))
known('C02', 'quotes inside string literals are not escaped in LLVM output', S(M('\tprintf("a\\"b");'), 'a"b'))
known('C05', 'a comment on one line between adjacent string literals keeps them from being joined',
      {'a': M('\tprint("ab" "c");'), 'b': M('\tprint("ab" /* x */ "c");'), 'target': '-VM', 'kind': 'space'})
known('C06', 'an integer literal above the largest int ends in an internal error', [['int', '3000000000', 3000000000]])
known('C06', 'a string ends at \\0 inside it', [['string', '"a\\0b"', [97, 0, 98]]])
known('C07', 'the largest int is not accepted as the value of an enumeration constant',
      {'source': 'enum T { B = 2147483647 };\n' + M('\tint e = B;\n\tprint(e);'), 'want': '2147483647'})
fixed('C06', 'keep adding digits', 'digits of an integer literal after the one that made it floating were lost', [['float', '123456789012345678901234', [123456789012345678901234, 1]]])
known('C06', 'an integer literal from 2^63 to about 1.15e19 used as a floating value becomes negative', [['float', '9672029975537026831', [9672029975537026831, 1]]])
fixed('C06', 'string literal that starts with', 'the compiler crashed on a string literal that starts with \\0', [['string', '"\\0"', []]])
fixed('C01', 'structures of more than 48 members', 'members of a structure beyond the 48th overwrote memory of the compiler',
      S('struct S\n{\n' + ''.join('\tint m%d;\n' % i for i in range(200)) + '};\n' + M('\tstruct S s;\n\ts.m199 = 3;\n\ts.m0 = 4;\n\tprint(s.m199, s.m0);'), '34'))
fixed('C01', 'more than 49 enumeration constants', 'enumeration constants beyond the 49th and parameters beyond the 97th overwrote memory of the compiler',
      S('enum E { ' + ', '.join('A%d' % i for i in range(200)) + ' };\n' + M('\tint e = A199;\n\tprint(e, f(' + ', '.join(str(i) for i in range(200)) + '));', 'int f(' + ', '.join('int p%d' % i for i in range(200)) + ')\n{\n\treturn p199 + p0;\n}\n'), '199199'))


def T(files, want, args=('main.c',), cwd=''): return {'kind': 'tokens' if not cwd else 'tree', 'files': files if isinstance(files, dict) else {'main.c': files}, 'args': list(args), 'cwd': cwd, 'want': want}
def R(files, args=('main.c',)): return {'kind': 'reject', 'files': files if isinstance(files, dict) else {'main.c': files}, 'args': list(args)}
def E(expr, v): return T('#eval %s\n' % expr, (['-'] if v < 0 else []) + [str(abs(v))])


fixed('C13', 'apply a unary operator', 'a unary operator before a parenthesised expression was applied to the first value in the parentheses', E('-(1 + 2)', -3))
fixed('C13', 'negate the operand of !', '! in a preprocessor expression did not negate', E('!0 + !5', 1))
fixed('C13', 'base prefix inside a macro', 'a number with a base prefix inside a macro was read wrongly when the macro stood in an expression', T('#define A 0x1F\n#eval A\n', ['31']))
fixed('C13', 'report a division by zero in a preprocessor', 'the compiler crashed on a division by zero in a preprocessor expression', R('#if 1 / 0\n#endif\n'))
fixed('C13', 'unclosed quote in a skipped line', 'an apostrophe in a skipped line swallowed the directive that ends the group', T("#if 0\ndon't\n#endif\na\n", ['a']))
fixed('C13', 'give escape sequences of character constants', "character constants with escapes had the value of the backslash in expressions", E("'\\n'", 10))
fixed('C13', 'brackets of a macro call in a directive', 'an open bracket of a macro call in a directive went on over the following lines', R('#define f(x) x\n#if f(1\n#endif\n)\n'))
fixed('C13', 'error is reported inside a skipped group', 'an error reported inside a skipped group did not make the run fail', R('#if 1\n#else\n#else\n#endif\n'))
fixed('C12', 'letters of a number by a macro', 'a macro replaced letters inside a number', T('#define e5 x\n1e5\n', ['1e5']))
fixed('C12', 'escape every backslash of a literal', 'backslashes of a literal were not all escaped by #', T('#define s(x) #x\ns("\\\\")\n', ['"\\"\\\\\\\\\\""']))
fixed('C12', 'forget the old value of a macro', 'a macro redefined as empty kept its old value', T('#define A 1\n#set A\n<A>\n', ['<', '>']))
fixed('C12', 'replace a parameter by nothing', 'an empty argument was replaced by "(null)"', T('#define f(x) <x>\nf()\n', ['<', '>']))
fixed('C12', 'keep the # operator of a macro apart', 'a # operator directly behind a name was merged with it', T('#define f(x) x#x\nf(a)\n', ['a', '"a"']))
fixed('C14', 'search the next includes relative', 'after an included file from another directory, further includes were searched in that directory', T({'main.c': '#include "d/a.h"\n#include "b.h"\n', 'd/a.h': 'a\n', 'b.h': 'b\n'}, ['a', 'b']))
fixed('C14', 'path of the current directory', '-I./ was rejected after a read in front of a buffer', T({'main.c': '#include <a.h>\n', 'a.h': 'a\n'}, ['a'], ('main.c', '-I./')))
known('C12', 'an operator at the edge of a replacement merges with the one in the text around it', T('#define neg(x) -x\n#eval neg(-1)\n', ['1']))
fixed('C14', 'report an included file that cannot be opened', 'a file included as "" or <> (the directory itself) was accepted as empty', R('#include ""\n', ('main.c', '-I.')))
known('C14', 'one file under two spellings that differ by a doubled slash is included twice', T({'main.c': '#include "d/a.h"\n#include "d//a.h"\n', 'd/a.h': 'a\n'}, ['a']))


def Z(text, *args, every=False, more=None):
    f = {'t.c': text.encode('utf-8').decode('latin-1') if isinstance(text, str) else text.decode('latin-1')}
    f.update(more or {})
    d = {'files': f, 'args': (list(args) if args else ['-VM', 't.c']) + ['-o', 'o']}
    if every: d['every'] = True
    return d


fixed('C15', 'ill-formed UTF-8 sequence', 'a stray octet above 127 made the preprocessor read the same place for ever or run off its input', Z(b'#\xff'))
fixed('C15', 'source line is long', 'a diagnostic on a long line overflowed the buffers of the message', Z('void main() { x = "%s"; }\n' % ('a' * 5000)))
fixed('C15', 'path buffers when a name', 'a long file name overflowed the buffers for paths', Z('#include "%s"\nvoid main() {}\n' % ('a' * 4000)))
fixed('C15', 'macro arguments that the end of the file', 'a list of macro arguments cut off by the end of the file hung the preprocessor or was accepted', Z('#define f(x) x\nf((1'))
fixed('C15', 'stop replacing macros once', 'a macro that calls itself twice took exponential time', Z('#define A A A\nA\n', every=True))
fixed('C15', 'least integer by minus one', 'the compiler crashed on the constant 9223372036854775808 / -1', Z('void main() { int x = 9223372036854775808 / -1; }\n'))
fixed('C15', 'flag that is too long', 'a name of more than 1023 characters in -D overflowed its buffer', Z('void main() {}\n', '-VM', 't.c', '-D' + 'a' * 3000))
fixed('C15', 'buffer of a directive that is skipped', 'an unknown directive of more than 63 octets in a skipped group overflowed its buffer', Z('#if 0\n#%s\n#endif\nvoid main() {}\n' % ('x' * 200)))
fixed('C15', 'message when a name is long', 'a long name in a message overflowed its buffer', Z('#if 1\n#%s\n#endif\nvoid main() {}\n' % ('x' * 5000)))
fixed('C15', 'column of an ill-formed line', 'the column of an ill-formed line was negative, which hung the printing of a diagnostic', Z(b'##}\\\n\xf6#', '-E', 't.c'))
known('C15', 'MIPS: an expression that needs more registers than there are is compiled with an index out of bounds',
      Z('void main()\n{\n\tfloat a = 1.5;\n\tfloat b;\n\tb = ' + 'a + (' * 30 + 'a' + ')' * 30 + ';\n}\n', '-MIPS', 't.c', every=True))
known('C15', 'MIPS: a construct that is not supported is reported as an internal error and the run succeeds',
      Z('void main()\n{\n\tint x;\n\tx = strcmp("a", "b");\n}\n', '-MIPS', 't.c', every=True))
known('C15', 'a macro whose replacement repeats its growing argument takes exponential time before the call depth is exceeded',
      Z('#define a(A) a(A A)\na(1)\n', '-E', 't.c', every=True))


def H(kind, *ops): return {'kind': ['vector', 'stack', 'hash', 'map', 'strings', 'tree'].index(kind), 'ops': [list(o) for o in ops]}


fixed('C18', 'traversal of a tree that has only the root', 'the node after the root of an empty tree was a node outside the tree', H('tree', (17, 0, 0)))
fixed('C18', 'no key for an index that is not a record', 'the key of a failed search in a hash table was the first word of the table', H('hash', (4, 0, 0)))
fixed('C18', 'failure of setting a double or 64-bit value', 'setting a double or 64-bit value outside a record of a hash table was reported as a success', H('hash', (0, 5, 1), (9, 5, 48)))
fixed('C18', 'no last read key in a new map', 'the last read key of a new map lay at an indeterminate place', H('map', (147, 0, 0)))
fixed('C18', 'index close to the maximum', 'setting a double at the index SIZE_MAX of a vector (peeking into an empty stack) accessed memory in front of it', H('stack', (7, 0, 0)))
fixed('C18', 'number close to the maximum', 'setting a double with a number close to the maximum at a missing key overwrote the hash table', H('hash', (300, 0, -6150081503683383173)))


def FF(fault, *args, **more):
    main = ''.join('#include "%s"\n' % n for n in more) + 'int f(int a) { return a; }\nvoid main() { f(1); }\n'
    return {'files': dict({'main.c': main}, **more), 'names': ['main.c'], 'args': list(args) or ['-VM'], 'faults': [list(fault)]}


fixed('C17', 'print no warnings when -Wno', '-Wno did not suppress warnings unless an error had been reported before', {'items': [['f', 'warn.c', 'warn.c'], ['o', '-Wno', '-Wno']], 'limit': None})
fixed('C23', 'cannot be written completely', 'an output cut short by a full disk was reported as a success and marked as executable', FF(('limit', 0, 5)))
fixed('C23', 'that may only be read', 'a source file without the permission to write could not be compiled', FF(('mode', 0, 'readonly')))
fixed('C23', 'included file that cannot be opened', 'an included file that cannot be opened was left out without a word', FF(('open', 0, 0), **{'a.h': 'int g = 3;\n'}))
fixed('C23', 'cannot be read to its end', 'a source file that could not be read to its end was compiled as far as it was read', FF(('read', 0, 0.5), **{'a.h': 'int g = 3;\nint h = 5;\n'}))
fixed('C23', 'paths of more than 256', 'the compiler crashed when the path of a source file could not be found out (no /proc); longer paths were cut in messages', FF(('read', 0, 0.03)))


def Y(f, v): return {'function': f, 'verdict': v}


fixed('C09', 'increment or decrement constants', '++ and -- changed objects declared const', Y('const int h0 = 1; void t0() { h0++; }', 'bad'))
fixed('C09', 'elements of a constant array constant', 'an element of an array inside a constant structure could be assigned to', Y('void t0() { const struct { int z[2]; } ca = { { 1, 2 } }; ca.z[0] = 1; }', 'bad'))
fixed('C09', 'differ only in const', 'values of types that differ in const only could not be compared or chosen between', Y('void t0(bool b) { const bool k = true; print(b == k); }', 'ok'))
fixed('C09', 'array bound that is a constant below one', 'an array bound that is zero or negative was accepted', Y('void t0() { int a[0]; }', 'bad'))
fixed('C09', 'different constant types for one', 'a const char or const float declared after a const int was taken for a const int', Y('void t0() { const int a = 1; const float b = 1.5; const char *c; const float *d = &b; c = d; }', 'bad'))
fixed('C09', 'constant pointers outside of functions', 'a constant pointer could not be declared outside of functions', Y('int h1 = 1; int *const h2 = &h1;', 'ok'))
fixed('C09', 'enumerations declared inside blocks', 'an enumeration could not be declared inside a function', Y('void t0() { enum En { P, Q }; int x = Q; print(x); }', 'ok'))
fixed('C09', 'located on empty lines', 'diagnostics at the end of a file were lost', Y('void t0() { if (true) { ', 'bad'))
fixed("C09", "type definitions inside blocks", "a type could not be defined inside a function", Y("void t0() { typedef int T0; T0 x = 1; print(x); }", "ok"))
known('C09', 'two labels "case" of one switch with the same value are accepted', Y('void t0() { switch (i) { case 1: i = 1; case 1: i = 2; } }', 'bad'))
known('C09', 'two labels "default" in one switch are accepted', Y('void t0() { switch (i) { default: i = 1; default: i = 2; } }', 'bad'))
known('C09', 'an assignment to a function is accepted', Y('void t0() { fi = fi; }', 'bad'))
known('C09', 'an assignment to a character of a string literal is accepted', Y('void t0() { "ab"[0] = 1; }', 'bad'))
known('C09', 'two members of one structure with the same name are accepted', Y('struct S0 { int a; int a; } t0;', 'bad'))
known('C09', 'a structure with a pointer to itself (the example of the documentation) is refused', Y('struct node0 { int data; struct node0 *next; } t0;', 'ok'))


def L(*lines, rc=66, files=None): return {'chunks': [[x if isinstance(x, list) else x.replace('@', '\ue000') for x in lines]], 'end': False, 'crlf': False, 'spell': 'abs', 'rc': rc}


fixed('C11', 'first character of a token', 'every diagnostic of the compiler named the column after the first character of the token', L('void main() { int i = @zz; }'))
fixed('C11', 'misplaced labels, jumps and unknown types', 'a misplaced label or jump and an unknown type were located at the token that follows', L('void main() { @break; }'))

fixed('C02', 'names differ only before transliteration', 'two functions whose names have the same transliteration were one name in LLVM output, and names of 4096 octets and more overflowed a buffer',
      S('int е(int x)\n{\n\treturn x + 1;\n}\nint э(int x)\n{\n\treturn x * 10;\n}\n' + M('\tprintf("%i %i", е(1), э(2));'), '2 20'))
fixed('C01', 'negative zero constant', 'abs of a negative zero constant was folded to a negative zero', S(M('\tprintf("%f", abs(0.0 / -1.5));'), '0.000000'))
fixed('C19', 'upper case of the letter', 'the letter ё was its own upper case', {'op': 7, 'octets': '5104000052040000'})

fixed('C02', 'global variables of type bool', 'a global bool was given a floating value by the LLVM back end', S('bool g = true;\n' + M('\tif (g) printf("yes"); else printf("no");'), 'yes'))
fixed('C02', 'bool constants returned and compared', 'a function that returns true or false returned nothing in LLVM output, and bools were compared as floating values',
      S('bool f(int n)\n{\n\tif (n > 1) return true;\n\treturn false;\n}\n' + M('\tbool a = true;\n\tbool b = f(2);\n\tif (a == b) printf("yes"); else printf("no");\n\tif (a != true) printf("bad"); else printf("good");'), 'yesgood'))
fixed('C02', 'objects of const types', 'objects of const types had no type in LLVM output',
      S('const int q = 4;\nint f(const int a)\n{\n\treturn a + q;\n}\n' + M('\tconst int c = 2;\n\tprintf("%i", f(c));'), '6'))
fixed('C02', 'char initialised with an integer constant', 'a char initialised with an integer constant took its value from a register that does not exist', S(M('\tchar c = 4;\n\tint k = 1;\n\tk = c;\n\tprintf("%i", k);'), '4'))
def D(text, *args): return {'files': {'t.c': text}, 'args': list(args) + ['t.c', '-o', 'o'], 'before': []}


fixed('C16', 'state of LLVM code generation', 'labels in LLVM output of logical values were whatever was on the stack', D('int a = 1;\nvoid main()\n{\n\t(0 && a < 5);\n}\n', '-LLVM'))
fixed('C16', 'number of the unexpected node', 'the diagnostic of an unexpected node contained a random number', D('void main()\n{\n\tfloat x = log(0);\n}\n', '-MIPS'))
fixed('C16', 'spelling of a long type', 'the Debug build overflowed a buffer when it wrote the spelling of a long type',
      D('struct S1{int a_name_of_a_member_of_a_structure; int another_name_of_a_member_of_a_structure;};struct S2{struct S1 the_first; struct S1 the_second;};struct S2 v;\nvoid main(){}\n', '-VM'))
fixed('C16', 'name of the directive', 'the diagnostic of #eval without an expression inside #define contained what was on the stack', D('#define S #eval\nvoid main(){}\n', '-VM'))
fixed('C20', 'several conversions in one call', 'formatted reading with several conversions counted only the octets of the first one, so the next reading of the buffer began inside what was consumed',
      {'kind': 0, 'ops': [[0, 249277474538480245, 0], [14, 0, 1428022851730845922]]})
fixed('C20', 'suppressed conversions and literal text', 'a suppressed conversion in formatted reading took an argument, and literal text that does not match gave a negative count',
      {'kind': 0, 'ops': [[0, 8104139712410139858, 0], [14, 0, 6358337581628354104]]})
fixed('C21', 'floating constants with two widths', 'two widths on the command line and a floating constant made the code generator read behind an array and crash',
      {'source': M('\tfloat x = 1.5;\n\tprint(x);'), 'input': '', 'want': '', 'status': 'ok'})


def Z(source, want, be='vm'): return {'source': source, 'input': '', 'want': want, 'status': 'ok', 'be': be}


fixed('C22', 'confused with type names', 'a variable from displacement 1000, an enumerator from value 1000 and a function from number 1000 were taken for the name of a type, and a function whose type is declared behind about 70 structures had the number 0',
      Z(''.join('struct s%d { int a%d; int b%d; float c%d; };\n' % (i, i, i, i) for i in range(90)) + M('\tprintf("%i", f(1, 2.0, 3.0));', 'int f(int a, float b, float c)\n{\n\treturn a + 1;\n}\n'), '2'))
fixed('C22', 'operands taken for instructions', 'an assignment to a variable of displacement 9000 and more changed another variable',
      Z('struct s1 { %s };\nstruct s2 { %s };\n' % (' '.join('int a%d;' % i for i in range(95)), ' '.join('struct s1 b%d;' % i for i in range(95)))
        + M('\tstruct s2 big;\n\tint %s;\n' % ', '.join('v%d' % i for i in range(60)) + ''.join('\tv%d = 0;\n' % i for i in range(60)) + ''.join('\tv%d = %d;\n' % (i, i) for i in range(60)) + '\tprintf("%i %i %i", v10, v20, v30);'), '10 20 30'))
fixed('C22', 'taken for structures in IR', 'in a program with about 1000 words of types the IR began with types that do not exist',
      Z(''.join('struct s%d { int a%d; int b%d; float c%d; };\n' % (i, i, i, i) for i in range(120)) + 'struct t { %s };\n' % ' '.join('struct s%d m%d;' % (i, i) for i in range(120)) + M('\tprintf("%i", 5);'), '5', 'll'))
fixed('C22', 'more than 128 arguments', 'IR of a call with more than 128 arguments had no call, and more than 4096 cases overflowed an array',
      Z('int f(%s) { return p199; }\n' % ', '.join('int p%d' % i for i in range(200)) + M('\tprintf("%%i", f(%s));' % ', '.join(str(i) for i in range(200))), '199', 'll'))
fixed('C01', 'structure given as an initializer in an argument', 'a structure given as an initializer in an argument was passed as an address (and one with a variable in it was refused)',
      S(M('\tint v = 4;\n\tprint(f(1, {2.5, 3, v}, 5));', 'struct P\n{\n\tfloat x;\n\tint a;\n\tint b;\n};\nint f(int m, struct P p, int n)\n{\n\treturn m * 10000 + p.a * 1000 + p.b * 100 + n * 10 + (p.x > 2.0 ? 1 : 0);\n}\n'), '13451'))
fixed('C02', 'characters given as integers', 'a character given as an int in an argument, a result or a branch of ?:, or the reverse, made IR that LLVM refuses',
      S(M('\tchar c = 98;\n\tint x = 5;\n\tprintf("%i %i %i %i", g(c), h(x), x > 3 ? c : x, c);', 'char k = 50;\nint g(int x)\n{\n\treturn x > 60 ? k : x;\n}\nchar h(int x)\n{\n\treturn x;\n}\n'), '50 5 98 98'))
known('C02', 'a structure given as an initializer in an argument has no value in IR',
      S(M('\tprintf("%i", f({3, 4}));', 'struct P\n{\n\tint a;\n\tint b;\n};\nint f(struct P p)\n{\n\treturn p.a * 10 + p.b;\n}\n'), '34'))
