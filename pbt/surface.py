"""Spellings of one program: tokens, separators, keyword and built-in spellings, parentheses, numeric bases, names."""
import re

KEYWORDS = {'main': 'главная', 'char': 'литера', 'float': 'вещ', 'int': 'цел', 'struct': 'структура', 'enum': 'перечисление',
            'void': 'пусто', 'typedef': 'типопр', 'if': 'если', 'else': 'иначе', 'do': 'цикл', 'while': 'пока', 'for': 'для',
            'switch': 'выбор', 'case': 'случай', 'default': 'умолчание', 'break': 'выход', 'continue': 'продолжить',
            'return': 'возврат', 'null': 'ничто', 'abs': 'абс', 'upb': 'кол_во', 'bool': 'булево', 'true': 'истина',
            'false': 'ложь', 'const': 'конст', 'double': 'двойной', 'long': 'длин', 'file': 'файл'}
BUILTINS = {'assert': 'проверить', 'asin': 'асин', 'cos': 'кос', 'sin': 'син', 'exp': 'эксп', 'log': 'лог', 'log10': 'лог10',
            'sqrt': 'квкор', 'rand': 'случ', 'round': 'округл', 'strncpy': 'копир_н_симв', 'strcat': 'конкат_строки',
            'strcmp': 'сравн_строк', 'strncmp': 'сравн_н_симв', 'strstr': 'нач_подстрок', 'printf': 'печатьф', 'print': 'печать',
            'printid': 'печатьид', 'getid': 'читатьид', 't_create': 'н_создать', 't_getnum': 'н_номер_нити', 't_sleep': 'н_спать',
            't_join': 'н_присоед', 't_exit': 'н_конец', 't_init': 'н_начать', 't_destroy': 'н_закончить', 't_sem_create': 'н_создать_сем',
            't_sem_wait': 'н_вниз_сем', 't_sem_post': 'н_вверх_сем', 't_msg_send': 'н_послать', 't_msg_receive': 'н_получить',
            'fopen': 'фоткрыть', 'fgetc': 'фчитать_символ', 'fputc': 'фписать_символ', 'fclose': 'фзакрыть',
            'send_int_to_robot': 'послать_цел_на_робот', 'send_float_to_robot': 'послать_вещ_на_робот',
            'send_string_to_robot': 'послать_строку_на_робот', 'receive_int_from_robot': 'получить_цел_от_робота',
            'receive_float_from_robot': 'получить_вещ_от_робота', 'receive_string_from_robot': 'получить_строку_от_робота'}

TOKEN = re.compile(r'''
    (?P<ws>\s+)
  | (?P<str>"(?:\\.|[^"\\])*")
  | (?P<chr>'(?:\\.|[^'\\])*')
  | (?P<num>0[xX][0-9a-fA-F]+|0[bBoOdD]\d+|\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)
  | (?P<id>[^\W\d]\w*)
  | (?P<op><<=|>>=|->|\+\+|--|&&|\|\||[<>=!+\-*/%&|^]=|<<|>>|[-+*/%&|^~!<>=?:;,.(){}\[\]])
''', re.X)


def tokens(src):
    out, i = [], 0
    while i < len(src):
        m = TOKEN.match(src, i)
        assert m, src[i:i + 20]
        if m.lastgroup != 'ws': out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


def spelling(rnd, w):
    """Another spelling of a keyword or built-in."""
    ru = KEYWORDS.get(w) or BUILTINS.get(w)
    if not ru: return w
    return rnd.choice([w, w.upper(), ru, ru.upper()])


WORD = re.compile(r'\w')
OPS = {'<<=', '>>=', '->', '++', '--', '&&', '||', '<=', '>=', '==', '!=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<', '>>', '//', '/*'}


def need_space(a, b):
    """Would two tokens run together when written without a separator?"""
    if WORD.match(a[-1]) and WORD.match(b[0]): return True
    if a[-1] == '.' and b[0].isdigit() or a[-1].isdigit() and b[0] == '.': return True
    for n in (2, 3):
        for i in range(1, n):
            s = a[-i:] + b[:n - i]
            if len(a[-i:]) == i and len(b[:n - i]) == n - i and s in OPS: return True
    return a[-1] in '"\'' and b[0] in '"\''


COMMENT_WORDS = ['x', 'слово', '1', '"', "'", '+', '{', '}', ';', '//', '*', ' ', '/', '\\ ', 'if', '\t', '()', '€', 'a = b', '#define A 1', '%']


def comment(rnd, line):
    body = ''.join(rnd.choice(COMMENT_WORDS) for _ in range(rnd.randint(0, 5)))
    if line:
        return '//' + body.rstrip('\\ ') + '\n'
    body = body.replace('*/', '* /').replace('/*', '/ *')
    if rnd.random() < 0.2: body = body.replace(' ', '\n')
    if body[:1] == '/': body = ' ' + body
    return '/*' + body + '*/'


def separator(rnd, need, crlf=False, plain=False):
    k = rnd.random()
    nl = '\r\n' if crlf else '\n'
    if plain or k < 0.45: return ' ' if need or rnd.random() < 0.3 else ''
    if k < 0.6: return nl
    if k < 0.68: return '\t'
    if k < 0.76: return nl * rnd.randint(1, 3) + '\t' * rnd.randint(0, 3)
    if k < 0.84: return ' ' * rnd.randint(1, 9)
    if k < 0.92: return ' ' + comment(rnd, False) + ' '
    if k < 0.95: return comment(rnd, False)
    return ' ' + comment(rnd, True)


def respace(rnd, toks, density=1.0):
    """Write tokens with other separators between them."""
    crlf = rnd.random() < 0.15
    out = [separator(rnd, False) if rnd.random() < 0.5 else '']
    for (ka, a), (kb, b) in zip(toks, toks[1:]):
        out.append(a)
        need = need_space(a, b)
        s = separator(rnd, need, crlf, rnd.random() > density)
        if ka == kb == 'str': s = rnd.choice(['', ' ', '\t', '\n', '\n\n\t'])   # comments here: known finding
        out.append(' ' + s if a[-1] == '/' and s[:1] == '/' else s)
    out.append(toks[-1][1])
    out.append(rnd.choice(['', '\n', '\n\n', ' ', ' // end', '\n/* end */', '\n//']))
    return ''.join(out)
