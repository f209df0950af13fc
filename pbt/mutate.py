"""Arbitrary inputs for the compiler: programs and preprocessor files damaged at the level of tokens, lines and octets."""
import re

from . import gen, pp, ppgen, surface

TOK = re.compile(r'\s+|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[^\W\d]\w*|\d[\w.]*|<<=|>>=|->|\+\+|--|&&|\|\||[<>=!+\-*/%&|^]=|<<|>>|##|.', re.S)
WORDS = list(surface.KEYWORDS) + ['sizeof', 'goto', 'union', 'static', 'extern', 'unsigned', 'FILE', 'stdin', 'msg_info', 'T', 'main', 'f0', 'g1', 'a', 'x', 'S', 'undeclared', '_', 'поле'] + list(surface.BUILTINS)
PUNCT = list('()[]{};:,.?=<>!~+-*/%&|^#@\\$`"\'') + ['->', '++', '--', '&&', '||', '<<', '>>', '<<=', '>>=', '==', '!=', '<=', '>=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '##', '...', '//', '/*', '*/']
LITS = ['0', '1', '-1', '2147483647', '2147483648', '4294967295', '9223372036854775807', '9223372036854775808', '99999999999999999999', '0x', '0xFFFFFFFF', '0b', '0b2', '0o9', '08', '1.', '.5', '1e', '1e5', '1e400',
        '1e-400', '1.5.2', "'a'", "''", "'ab'", "'\\q'", "'\\0'", "'я'", '""', '"s"', '"%i"', '"%', '"\\x"', '"я%с"', "'", '"', '1L', '0u', 'null', 'true']
TYPES = ['int', 'char', 'float', 'bool', 'void', 'struct S', 'struct', 'enum', 'enum E', 'FILE', 'int*', 'float *', 'const int', 'long', 'double', 'T', 'struct { int a; float b; }', 'enum { P, Q }', 'typedef int', 'struct S *']
DECLS = ['%T %n;', '%T %n = %e;', '%T %n[%e];', '%T %n[] = {%e, %e};', '%T %n[%e][%e] = {{%e}, {%e}};', '%T %n[] = "%w";', '%T *%n = &%n;', '%T %n(%T %n, %T *%n);', '%T %n(%T %n) { return %e; }', '%T (*%n)(%T);',
         '%T %n(void (*%n)(%T), %T %n[]) {}', 'struct %n { %T %n; %T %n[%e]; %T *%n; } %n = {%e, %e};', 'struct %n { struct %n %n; };', 'enum %n { %n = %e, %n, %n } %n;', 'typedef %T %n;', 'typedef struct { %T %n; } %n;',
         '%T *%n[%e];', '%T %n, *%n, %n[2];', 'const %T %n = %e;', '%T const * const %n;', '%T %n[%e] = {};', '%T %n = {%e};', 'struct %n;', 'enum %n;', 'typedef;', '%T;', '%n %n;', '%T %n[];', '%T [] %n;', 'int %n() {', 'void %n(...) {}']
STMTS = ['%e;', 'if (%e) %s else %s', 'while (%e) %s', 'do %s while (%e);', 'for (%D %e; %e) %s', 'for (;;) break;', 'switch (%e) { case %e: %s default: %s }', 'case %e: %s', 'default:', 'break;', 'continue;', 'return %e;', 'return;', '{ %s %s }',
         '%D', '%n = %e;', '%n[%e] = %e;', '%n.%n = %e;', '%n->%n = %e;', '*%n = %e;', '%n++;', '--%n;', 'print(%e, %e);', 'printf("%%i %%f %%c %%s", %e, %e);', 'printf("%w", %e);', 'printid(%n);', 'getid(%n);', 'assert(%e, "%w");', ';', 'goto %n;', '%n:', 'else %s',
         't_create(%n);', 'print("%w");', '%n = {%e, %e};', '%n += %e;', '%n <<= %e;']
EXPRS = ['%n', '%l', '%e + %e', '%e %o %e', '(%e)', '-%e', '!%e', '~%e', '*%n', '&%n', '%n[%e]', '%n[%e][%e]', '%n.%n', '%n->%n', '%n(%e)', '%n(%e, %e)', '%n()', '%e ? %e : %e', '%n = %e', '%n += %e', '%n++', '++%n', 'upb(%n)', 'abs(%e)', '{%e, %e}', 'sizeof(%T)',
         '%e, %e', '"%w"', '%n.%n.%n', '(*%n).%n', '&%n[%e]', '-%l', '%l / %l', '%l %o %l', 'sin(%e)', 'strcmp(%e, %e)', 'round(%e)', 'rand()', 'fopen(%e, %e)', '%b(%e)', '%b(%e, %e)', '%b()']
NAMES = ['a', 'b', 'x', 'y', 'i', 'f', 'g', 'S', 'T', 'E', 'P', 'Q', 'main', 'p', 'имя', 'print', 'undeclared', 's', 'm']
OPS = ['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^', '&&', '||', '=', '+=', '<<=', ',', '->', '.']
DIRS = ['#define %n %e', '#define %n(%n, %n) %e', '#define %n(', '#undef %n', '#if %e', '#ifdef %n', '#ifndef %n', '#elif %e', '#else', '#endif', '#while %e', '#endw', '#macro %n(%n)', '#macro %n', '#endm', '#set %n %e', '#eval %e', '#line 3 "x"', '#include "%w"', '#include <%w>',
        '#define %n #%n', '#define %n(x, y) x##y #x', '#define %n %n(%n)', '#', '##', '#%n', '%n(%e, %e)', '%n(', '%n(%e', '#define', '#if', '#eval (', '#line', '#include', '#macro', '\\', '#define %n \\', '/*', '*/', '//', '"', "'"]


class Mutator:
    def __init__(self, rnd):
        self.r = rnd

    # -- grammar without semantics

    def expand(self, t, depth):
        r, out, i = self.r, '', 0
        while i < len(t):
            if t[i] != '%' or i + 1 >= len(t): out += t[i]; i += 1; continue
            k = t[i + 1]
            i += 2
            if k == '%': out += '%'
            elif k == 'T': out += r.choice(TYPES)
            elif k == 'n': out += r.choice(NAMES) if r.random() < 0.985 else r.choice('xяS_') * r.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 257, 1030, 4100])
            elif k == 'l': out += r.choice(LITS)
            elif k == 'o': out += r.choice(OPS)
            elif k == 'b': out += r.choice(list(surface.BUILTINS))
            elif k == 'w': out += r.choice(['', 'x', 'a.h', '%i', '%f%c', '\\n', 'да', '%s', '%', '../x', 'x' * r.choice([1, 1, 300])])
            elif k == 'e': out += self.expand(r.choice(EXPRS if depth > 0 else EXPRS[:2]), depth - 1)
            elif k == 's': out += self.expand(r.choice(STMTS if depth > 0 else [';', '{}', '%n++;']), depth - 1)
            elif k == 'D': out += self.expand(r.choice(DECLS[:6]), depth - 1)
        return out

    def grammar(self):
        r, out = self.r, []
        for _ in range(r.randint(0, 5)): out.append(self.expand(r.choice(DECLS), 2))
        if r.random() < 0.9:
            out.append(r.choice(['void main()', 'int main()', 'void main()', 'главная()', 'int main(int a)', 'main']) + '\n{')
            for _ in range(r.randint(0, 8)): out.append('\t' + self.expand(r.choice(STMTS), 3))
            if r.random() < 0.95: out.append('}')
        return '\n'.join(out) + r.choice(['\n', '\n', ''])

    def directives(self):
        r = self.r
        return ''.join(self.expand(r.choice(DIRS), 2) + r.choice(['\n'] * 9 + [' ', '\\\n', '\r\n']) for _ in range(r.randint(1, 14)))

    def program(self):
        for _ in range(20):
            try: return gen.Gen(self.r, None, self.r.choice([0.3, 0.5, 1.0])).program().source()
            except Exception: pass
        return 'void main() {}\n'

    def preproc(self):
        return pp.render(ppgen.Gen(self.r).program(self.r.randint(2, 10)), pp.Plain())

    # -- damage

    def tokens(self, s, n):
        r = self.r
        t = TOK.findall(s)
        for _ in range(n):
            if not t: t = ['int']
            i = r.randrange(len(t))
            j = min(len(t), i + r.choice([1, 1, 2, 4, 10]))
            k = r.randrange(9)
            if k == 0: del t[i:j]
            elif k == 1: t[i:i] = t[i:j]
            elif k == 2: t[i] = ' ' + r.choice(WORDS) + ' '
            elif k == 3: t[i:i] = [' ' + r.choice(WORDS) + ' ']
            elif k == 4: t[i] = r.choice(PUNCT)
            elif k == 5: t[i:i] = [r.choice(PUNCT)]
            elif k == 6: t[i] = ' ' + r.choice(LITS) + ' '
            elif k == 7:
                m = r.randrange(len(t))
                t[i], t[m] = t[m], t[i]
            elif k == 8: t[i] = r.choice(t)
        return ''.join(t)

    def octets(self, b):
        r = self.r
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            i = r.randrange(len(b) + 1)
            k = r.randrange(6)
            if k == 0: b[i:i] = bytes([r.randrange(256)])
            elif k == 1 and i < len(b): b[i] ^= 1 << r.randrange(8)
            elif k == 2: del b[i:i + r.choice([1, 2, 8])]
            elif k == 3: b[i:i] = r.choice([b'\0', b'\xff', b'\xc0\x80', b'\xe2\x82', b'\xf4\x90\x80\x80', b'\xed\xa0\x80', b'\xd0', b'\xf8\x88\x80\x80\x80', b'\xef\xbb\xbf', b'\r', b'\x1a', b'\x7f', b'\\\n', b'\\\r\n'])
            elif k == 4: del b[i:]
            else: b[i:i] = b[i:i + r.choice([1, 4, 16, 64])]
        return bytes(b)

    def long(self):
        """Something long or deep."""
        r = self.r
        n = r.choice([30, 100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000])
        d = r.choice([10, 50, 100, 200])
        k = r.randrange(21)
        name = r.choice(['a', 'я', 'ab', 'щ']) * n
        if k == 0: return 'int %s = 1;\nvoid main() { print(%s); }\n' % (name, name)
        if k == 20: return 'int %s(int x) { return x; }\nvoid main() { print(%s(%s(1))); }\n' % (name, name, name)
        if k == 1: return 'void main() { print("%s"); }\n' % (r.choice(['a', 'я', '\\n', '%%']) * n)
        if k == 2: return 'void main() { int x = %s1%s; }\n' % ('(' * d, ')' * d)
        if k == 3: return 'void main() { int x = %s1; }\n' % (r.choice(['-', '!', '~', '- ', '+']) * d)
        if k == 4: return 'void main() %s%s\n' % ('{' * d, '}' * d)
        if k == 5: return 'void main() { int x = %s1; }\n' % ('1 + ' * n)
        if k == 6: return 'int a[%d] = {%s};\nvoid main() {}\n' % (min(n, 2000), ', '.join(['1'] * min(n, 2000)))
        if k == 7: return '#define %s 1\n%s\nvoid main() { print(%s); }\n' % (name, name if r.random() < 0.3 else '', name)
        if k == 8: return '#if %s1%s\nint a;\n#endif\nvoid main() {}\n' % (r.choice(['(', '-', '!', '~ ']) * d, ')' * d)
        if k == 9: return '#include "%s"\nvoid main() {}\n' % (r.choice(['a', '/', './', '../', 'a/']) * n)
        if k == 10: return '#define f(%s) 1\nvoid main() { f(%s) }\n' % (', '.join('p%d' % i for i in range(min(n, 500))), ', '.join('p%d' % i for i in range(min(n, 500))))
        if k == 11: return 'void f(%s);\nvoid main() {}\n' % ', '.join('int p%d' % i for i in range(min(n, 500)))
        if k == 12: return '/*%s%s\nvoid main() {}\n' % (r.choice('ax*/\n') * n, r.choice(['*/', '']))
        m = r.choice([60, 90, 130, 300, 700, 1500])
        w = r.choice(['a', 'я', 'ab', 'x' * 20, 'я' * 60])
        if k == 13: return 'void main()\n{\n%s}\n' % ''.join('\tprint("%s%d");\n' % (w * r.randint(1, 3), i) for i in range(m))
        if k == 14: return ''.join('int %s%d(int p%d)\n{\n\treturn p%d + %d;\n}\n' % (w, i, i, i, i) for i in range(m)) + 'void main() { print(%s0(1)); }\n' % w
        if k == 15: return ''.join('struct %s%d\n{\n\tint m%d;\n\tfloat *k%s;\n};\n' % (w, i, i, w) for i in range(m)) + 'void main() { struct %s0 x; x.m0 = 1; }\n' % w
        if k == 16: return ''.join('#define %s%d %d\n' % (w, i, i) for i in range(m)) + 'void main() { print(%s%d); }\n' % (w, m - 1)
        if k == 17: return 'void main()\n{\n%s}\n' % ''.join('\tint %s%d = %d;\n\tif (%s%d) { float t = %d.5; }\n' % (w, i, i, w, i, i) for i in range(m))
        if k == 18: return 'void main()\n{\n\tint x = 1;\n\tswitch (x)\n\t{\n%s\t}\n}\n' % ''.join('\t\tcase %d: print("%s");\n' % (i, w) for i in range(m))
        return ''.join('int v%d = %d;\n' % (i, i) for i in range(min(n, 1500))) + '#define f(x) x\nvoid main() { print(f(%s)); }\n' % (r.choice(['v0 + ', '"a", ', '(1) * ']) * min(n, 300) + '1')

    def octet(self, s): return s if isinstance(s, bytes) else s.encode('utf-8', 'surrogateescape')

    def input(self):
        """(kind, octets)"""
        r = self.r
        k = r.random()
        if k < 0.30: kind, s = 'grammar', self.grammar()
        elif k < 0.50: kind, s = 'tokens', self.tokens(self.program(), r.choice([1, 1, 2, 3, 8]))
        elif k < 0.58: kind, s = 'directives', self.directives() + (self.grammar() if r.random() < 0.5 else '')
        elif k < 0.70: kind, s = 'preprocessor', self.tokens(self.preproc(), r.choice([0, 1, 2, 4]))
        elif k < 0.765: kind, s = 'long', self.long()
        elif k < 0.82: kind, s = 'mixed', self.tokens(self.grammar() + self.directives(), r.choice([1, 3, 10]))
        elif k < 0.90:
            s = self.program()
            kind, s = 'cut', s[:r.randrange(len(s))]
        else: kind, s = 'octets', r.choice([self.grammar, self.program, self.preproc, self.directives])()
        b = self.octet(s)
        if kind == 'long': return kind, b[:80000]
        if kind == 'octets' or r.random() < 0.03: b = self.octets(b)
        return kind, b[:12000]
