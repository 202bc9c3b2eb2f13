"""R03: a syntactically wrong line is reported and leaves the session unchanged."""
import re
from session import *
from engine import Violation, show
from R01 import compare

PROP = 'R03'
COUNTS = {'quick': 800, 'thorough': 10000}
RULE = ('each case is a session of valid lines (declarations, expressions, assignments, calls; the model predicts their output) '
        'between which syntactically invalid lines are entered (mostly derived from the valid line that follows, by removing or '
        'adding a bracket, truncating it, stray operators, operands, keywords, characters, unterminated strings, characters and '
        'comments, unknown directives) as well as empty lines, lines of spaces and comment lines; every invalid line must print '
        'nothing on standard output, be reported on standard error, and every valid line must print what it prints without them, with no more than 24 files open at a time (nothing may leak); '
        'the session ends with the echo of every object; non-trivial: at least 2 invalid lines of 2 kinds; distinct by lines')
ASSUMPTIONS = ['a line with unbalanced brackets, without final semicolon, or with a stray token as described is not in the grammar of C']

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|\'[^\']*\'|[A-Za-z_]\w*|\d+\.\d+|0[xX][0-9a-fA-F]+|\d+|->|\+\+|--|<<=?|>>=?|[-+/^]=|[<>=!]=|&&|\|\||\.\.\.|.')


def toks_of(line):
    return TOK.findall(line)


def mutate(d, line):
    """(kind, an invalid line made from a valid one)"""
    t = toks_of(line)
    sig = [i for i, x in enumerate(t) if x != ' ']
    kinds = [(3, 'bracket'), (2, 'unbracket'), (3, 'truncate'), (2, 'char'), (2, 'operator'), (2, 'operand'), (1, 'keyword'),
             (2, 'unterminated'), (1, 'after')]
    while True:
        k = d.weighted(kinds)
        if k == 'bracket':
            i = d.int(0, len(t))
            return k, ''.join(t[:i] + [d.pick(['(', ')', '[', ']', '}', '{'])] + t[i:])
        if k == 'unbracket':
            b = [i for i in sig if t[i] in '()[]{}']
            if not b:
                continue
            i = d.pick(b)
            return k, ''.join(t[:i] + t[i + 1:])
        if k == 'truncate':
            i = d.pick(sig)
            if i == 0:
                continue
            return k, ''.join(t[:i])
        if k == 'char':
            i = d.int(0, len(t) - 1)
            return k, ''.join(t[:i] + [' ' + d.pick(['@', '`', '#', '$', '\\']) + ' '] + t[i:])
        if k == 'operator':
            p = [i for i in sig if t[i] in (';', ')', ']')]
            i = d.pick(p)
            return k, ''.join(t[:i] + [d.pick([' + ', ' % ', ' / ', ' == ', ' && ', ' = ', ' < ', ' >> ', ' ? ', ' ^= ', ' . ', ' -> ', ' ! '])] + t[i:])
        if k == 'operand':
            p = [i for i in sig if re.match(r'\d', t[i])]
            if not p:
                continue
            i = d.pick(p)
            return k, ''.join(t[:i] + [d.pick(['1 ', '7 7 ', '"a" '])] + t[i:])
        if k == 'keyword':
            w = d.pick(['else', 'case', 'while', 'if', 'return', 'for', 'default', 'switch', 'goto'])
            return k, ''.join(t[:-1] + [' ' + w + ' '] + t[-1:])
        if k == 'unterminated':
            return 'unterminated', d.pick([line + ' "abc', line[:-1] + ' "', line + " 'a", '"' + line.replace('"', ''), line + ' /* no end',
                                           "'" + line.replace("'", '').replace('"', ''), line + ' "a\\'])
        return k, line + d.pick([')', ' 3', '}', ' x', ' else', ' =', ','])


FIXED = ['else;', '(;', ')', '5', '1 +;', '"', "'", '/*', '?', '?;', '@', ']', 'int', 'struct {', 'struct ;;', '= 3;', 'int = 3;',
         'int 3;', 'a b c', '{', '}', '.', '->', ',;', '1 2;', '#', '#error e', '#include', '#include <', '#nonsense', '#define',
         'typedef int', 'enum {', 'enum { };', 'int [3];', 'int x[;', '1 ? 2;', 'while;', 'return', ');', '"a" b;', '*;', '!;', '&;',
         'sizeof;', 'sizeof(;', '((1);', '1));', 'int f(;', '3 = ;', '..', '%d', 'for (;;)', '?1', '??']

BLANK = ['', ' ', '     ', '// comment', '/* comment */', '  /* a */ // b', '/**/', '// int x = 3;', '/* int y; */', '/* " */', "// it's",
         '/* a *//* b */', '  // ', ' /* x */ ']


def gen(d):
    s = Session(d)
    lines = []
    small = d.chance(1, 4)
    nbad = 0
    bad_kinds = []

    def bad(base):
        nonlocal nbad
        if base is None or base.startswith('?') or d.chance(1, 5):
            k, l = 'fixed', d.pick(FIXED)
        else:
            k, l = mutate(d, base)
        nbad += 1
        if k not in bad_kinds:
            bad_kinds.append(k)
        lines.append((l, None))

    blanks = small and d.bool()
    for i in range(d.int(0, 3) if small else d.weighted([(3, d.int(3, 10)), (2, d.int(8, 20)), (1, 30)])):
        if d.chance(1, 8) and not blanks:
            # a name of a typedef that was rejected is used as another name
            n = s.name()
            lines.append((d.pick(['typedef int %s; )', 'typedef char *%s }', 'typedef struct q%s { int a; } %s ]' % (n, '%s'),
                                  'typedef int (*%s)(int) ;;)', 'int %s = ;', 'int %s[2;', 'enum { %s, 3 };', 'enum e%s { %s = };' % (n, '%s'),
                                  'struct s%s { int a; } %s )' % (n, '%s'), 'extern int %s(int', 'extern int %s;;]']) % n, None))
            nbad += 1
            if 'declaration' not in bad_kinds:
                bad_kinds.append('declaration')
            t = d.pick(INTS)
            v = d.int(0, 100)
            s.vars[n] = Cell(t, v)
            lines.append(('%s %s = %d;' % (t.name, n, v), n))
            continue
        l = s.line()
        for _ in range(d.weighted([(3, 0), (3, 1), (1, 2), (1, 3)])):
            if blanks or d.chance(1, 4):
                lines.append((d.pick(BLANK), ''))
            else:
                bad(l[0])
        lines.append(l)
        if i == 1 and d.chance(1, 10):
            # the same wrong line again and again
            k = len(lines)
            while len(lines) == k:
                bad(l[0] if d.bool() else None)
            for _ in range(d.int(15, 40)):
                nbad += 1
                lines.append(lines[-1])
            bad_kinds.append('storm')
        elif i == 1 and d.chance(1, 15):
            for l in big(d, s):
                if d.chance(1, 6):
                    bad(l[0])
                lines.append(l)
    if small and not blanks and not nbad:
        bad(None)
    lines += s.dump()
    return {'lines': [l for l, _ in lines], 'exp': [e for _, e in lines], 'kinds': bad_kinds, 'bad': nbad,
            'n': d.pick(['', '-2', '0', '1', '7'])}


def cases():
    return case_strategy(gen)


def render(case):
    return '\n'.join('%-50s -> %s' % (l, 'rejected' if e is None else repr(e)) for l, e in zip(case['lines'], case['exp']))


def check(env, case):
    e = {'BIC_VERIF_GC': case['n']} if case['n'] else {}
    text = ''.join(l + '\n' for l in case['lines'])
    got = env.repl(text, env=e, timeout=60, nofile=24)
    if got[0] is None:
        return []
    head, res = compare(case['lines'], [x or '' for x in case['exp']], got)
    if got[0] != 0 or len(res) != len(case['lines']) + 1:
        raise Violation('the session did not end normally: ' + show(got))
    n = len([l for l in got[2].split(b'\n') if l])
    if n < case['bad']:
        raise Violation('%d wrong lines but only %d lines on standard error\n%s' % (case['bad'], n, show(got)))
    if got[2] and not case['bad']:
        raise Violation('error output without a wrong line: ' + show(got))
    return case['kinds'] if case['bad'] >= 2 and len(case['kinds']) >= 2 else []
