"""X01: programs bic cannot run are rejected with a diagnostic, after exactly the statements
before the fault.  Oracle: gcc running the program with exit(113) in place of the fault; for
syntax faults, that no program with them is valid; for mutated text, gcc's own diagnosis."""
import re
from cgen import case_strategy
from engine import Violation, Invalid, show
from progs import Prog, PRE
from faults import *
import synt

PROP = 'X01'
COUNTS = {'quick': 5000, 'thorough': 70000}
VARIANTS = ['plain', 'asan']
RULE = ('each case is one of: (sem) a random program (functions, loops, branches, nested scopes) with one semantic fault '
        'of 11 kinds in one of 40 expression contexts or a declaration, at a random place, non-trivial when the reference '
        'execution reaches the fault; (syn) a random program made syntactically invalid by an unbalanced bracket, a '
        'stray token, one of about 80 ill-formed statements, an unterminated literal or comment, or truncation, always '
        'non-trivial; (mut) 1-3 random token edits of a program, run only when gcc reports a syntax error, non-trivial '
        'then; (soup) random tokens or bytes, only parsed, in builds with and without AddressSanitizer, non-trivial when '
        'longer than 20 characters; (pp) preprocessing errors and missing files; distinct by text')
ASSUMPTIONS = ['a faulty expression that is not evaluated need not be diagnosed',
               'gcc -fsyntax-only diagnoses "expected ..." only for text that is not C, apart from statements at file scope',
               'pointer arithmetic and conversions between objects of unequal pointer types are not diagnosed']

MARK = FaultProg.MARK


def body_without_return(src):
    i = src.index('\nint main() {\n')
    j = src.rindex('  return ')
    return None if 'return' in src[i:j] else (src[:i] + '\n{\n' + src[i + len('\nint main() {\n'):j] + '}\n')


def gen_sem(d):
    p = FaultProg(d, nfn=d.int(0, 3), depth=d.int(1, 4), stmts=d.int(1, 4), structs=False, size=d.int(4, 30))
    src = p.program()
    kind, fault = p.fault
    pre = 'puts("between"); ' if '"between"' in fault else ''
    ref = src.replace(MARK, '{ %sexit(113); }' % pre)
    top = d.chance(1, 3) and body_without_return(src)
    return {'k': 'sem', 'src': (top or src).replace(MARK, fault), 'ref': ref, 'kind': kind, 'fault': fault,
            'f': ['sem', kind] + (['top-level'] if top else []) + (['plain statement'] if '(' not in fault else [])}


def whole(d):
    return Prog(d, nfn=d.int(0, 2), depth=d.int(1, 3), stmts=d.int(1, 4), size=d.int(4, 20)).program()


def start(toks):
    """The first token that may be changed: after the declarations that every program has."""
    n = len(tokens(PRE))
    return n


def gen_syn(d):
    k = d.int(0, 6)
    f = []
    if k <= 1:
        p = FaultProg(d, nfn=d.int(0, 2), depth=d.int(1, 3), stmts=d.int(1, 4), size=d.int(4, 20))
        # statements are put in place of the marker wherever it is, executed or not
        src = p.program()
        a, b, c = d.pick(BAD_STATEMENTS)
        src = src.replace(MARK, ' '.join(x for x in (a, b, c) if x))
        f = ['statement']
    else:
        src = whole(d)
        t = tokens(src)
        lo = start(t)
        real = [i for i in range(lo, len(t)) if t[i].strip()]
        i = d.pick(real)
        if k == 2:
            br = [j for j in real if t[j] in OPEN + CLOSE]
            j = d.pick(br)
            if d.bool():
                t[j] = ''
                f = ['bracket removed']
            else:
                old = t[j]
                new = d.pick([x for x in OPEN + CLOSE if x != old])
                t[j] = new
                f = ['bracket replaced']
        elif k == 3:
            t[i] = d.pick([t[i] + ' X', 'X ' + t[i]]).replace('X', d.pick(list(OPEN + CLOSE)))
            f = ['bracket added']
        elif k == 4:
            w = d.pick(['@', '`', '$', 'case', 'switch', 'goto', 'do', 'continue', '?', '...', '#', '\\', '.', '->', '=',
                        '@', '\x01', '\x7f', 'default :' if False else 'default', '% /', '<<=<'])
            if w in ('#', '\\') and (i == 0 or '\n' in t[i - 1]):
                w = '@'
            if w in ('?', '.', '->', '=') and not (t[i - 1].strip() == '' and t[i] in (';', '}', ')', ']', ',')
                                                     or t[i] in (';', ')', ']', ',')):
                w = '`'
            t[i] = ' %s %s' % (w, t[i])
            f = ['stray token']
        elif k == 5:
            w = d.pick(['"', "'", '/*', '"\\q"', "'\\q'", '"\\', "''"])
            t[i] = ' %s %s' % (w, t[i])
            f = ['literal or comment']
        else:
            # inside main, or a function: never complete
            m = src.index('int main() {')
            n = 0
            for j, x in enumerate(t):
                n += len(x)
                if n > m + 12:
                    break
            rest = [x for x in real if x >= j]
            t = t[:d.pick(rest)]
            f = ['truncated']
        src = ''.join(t)
    return {'k': 'syn', 'src': src, 'f': ['syn'] + f}


WORDS = ['int', 'char', 'struct', 'union', 'enum', 'if', 'else', 'for', 'while', 'return', 'break', 'sizeof', 'typedef',
         'static', 'extern', 'void', 'double', 'float', 'long', 'short', 'unsigned', 'signed', 'a', 'b', 'f0', 'x1', '0', '1',
         '42', '1.5', '0x1f', '"s"', "'c'", '(', ')', '[', ']', '{', '}', ';', ',', '.', '->', '++', '--', '+', '-', '*',
         '/', '%', '&', '|', '^', '~', '!', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '<<', '>>', '=', '+=', '-=',
         '?', ':', '...']
SOUP = WORDS + ['auto', 'register', 'const', 'volatile', 'inline', 'case', 'switch', 'do', 'goto', 'continue', '#', '##',
                '\\', '@', '$', '`', '"', "'", '\n', '/*', '*/', '//', '\n#define M 1\n', '\n# 5 "x.c"\n', '\n#line 7\n', '"\\n"',
                '"\\', "'\\", '99999999999999999999999', '1e', '0x', '"\\777"', '__attribute__', '__asm__', '\n#if 0\n',
                '\n#endif\n', '_Bool', 'bool', '__extension__', '__restrict', '(void)', ':3', 'x' * 300, '\x00', '\xff']


def gen_mut(d):
    src = whole(d)
    t = tokens(src)
    lo = start(t)
    fs = set()
    for _ in range(d.int(1, 3)):
        real = [i for i in range(lo, len(t)) if t[i].strip()]
        i = d.pick(real)
        k = d.int(0, 4)
        if k == 0:
            t[i] = ''
        elif k == 1:
            t[i] = t[i] + ' ' + t[i]
        elif k == 2:
            t[i] = d.pick(WORDS)
        elif k == 3:
            t[i] = d.pick(WORDS) + ' ' + t[i]
        else:
            j = d.pick(real)
            t[i], t[j] = t[j], t[i]
        fs.add('mut' + str(k))
    return {'k': 'mut', 'src': ''.join(t), 'f': ['mut'] + sorted(fs)}


def gen_soup(d):
    k = d.int(0, 4)
    if k == 0:
        s = ''.join(chr(d.int(0, 255)) for _ in range(d.int(0, 60)))
        f = 'bytes'
    elif k == 1:
        s = ' '.join(d.pick(SOUP) for _ in range(d.int(1, 60)))
        f = 'tokens'
    elif k == 2:
        sy = synt.Syn(d, d.pick([4, 8, 15, 30]))
        t = tokens(synt.layout(d, sy.unit()))
        for _ in range(d.int(1, 4)):
            i = d.int(0, len(t) - 1) if t else 0
            t[i:i + d.int(0, 2)] = [d.pick(SOUP)]
        s = ' '.join(t)
        f = 'mutated grammar'
    elif k == 3:
        u = d.pick(['(', '[', '{', '-', '!', '*', '1+', 'if (1) ', 'a[', 'f(', '{;', 'int (*', '1?', 'sizeof ', '(int)',
                    'struct { ', 'a.', 'x,', 'int a;', '{ int a;', 'for(;;) ', '"a" '])
        n = d.pick([1, 10, 100, 300, 600])
        s = u * n + d.pick(['', ';', '1;', ')' * n + ';', '}' * n, ']' * n + ';', '1' + ')' * n + ';'])
        f = 'deep'
    else:
        src = whole(d)
        i = d.int(0, len(src) - 1)
        s = src[:i] + ''.join(chr(d.int(0, 255)) for _ in range(d.int(1, 4))) + src[i + d.int(0, 3):]
        f = 'mutated bytes'
    return {'k': 'soup', 'src': s, 'asan': d.chance(1, 3), 'f': ['soup', f]}


def gen_pp(d):
    k = d.int(0, 6)
    src = whole(d)
    lines = src.split('\n')
    if k == 6:
        return {'k': 'pp', 'src': None, 'name': d.pick(['missing.c', 'no/such/dir.c', '.', './']), 'f': ['pp', 'file']}
    l = [['#error stop'], ['#include "missing.h"'], ['#include <no/such.h>'], ['#if 1'], ['#endif'], ['#else']][k]
    i = d.int(0, len(lines))
    lines[i:i] = l
    return {'k': 'pp', 'src': '\n'.join(lines), 'f': ['pp', l[0].split()[0]]}


def gen(d):
    k = d.int(0, 19)
    if k <= 10:
        return gen_sem(d)
    if k <= 14:
        return gen_syn(d)
    if k <= 16:
        return gen_mut(d)
    if k <= 18:
        return gen_soup(d)
    return gen_pp(d)


def cases():
    return case_strategy(gen)


def rejected(r, out=b''):
    """Diagnosed and stopped with this output."""
    if r[0] is None:
        return 'timed out'
    if r[0] < 0:
        return 'died from signal %d' % -r[0]
    if r[0] == 0:
        return 'exit status 0'
    if not r[2].strip():
        return 'no diagnostic'
    if r[1] != out:
        return 'the output is not that of the statements before the fault, %r' % out
    return None


def syntax_error(env, src):
    env.write('m.c', src)
    rc, out, err = env.run([env.cc1, '-quiet', '-imultiarch', 'x86_64-linux-gnu', '-std=gnu11', '-w', '-fsyntax-only',
                            'm.c'])
    errs = [l for l in err.decode('latin-1').split('\n') if ' error: ' in l]
    # Statements at file scope are a feature of bic.
    return bool(errs) and re.search('error: (expected|stray|missing terminating)', errs[0]) and \
        not re.search("expected identifier or|expected declaration specifiers|expected ‘=’|at end of input", errs[0])


def check(env, case):
    k = case['k']
    if k == 'sem':
        ref = env.gcc(case['ref'])
        if ref[0] is None or ref[0] < 0:
            raise Invalid('reference: ' + show(ref))
        if ref[0] != 113:
            return []
        r = env.bic(case['src'])
        why = rejected(r, ref[1])
        if why:
            raise Violation('%s (%s): %s\n%s' % (case['fault'], case['kind'], why, show(r)))
        return case['f']
    if k == 'soup':
        v = 'asan' if case.get('asan') else 'plain'
        r = env.bic(case['src'], opts=('-T',), variant=v)
        if r[0] is None or r[0] < 0 or r[0] == 99 or b'AddressSanitizer' in r[2]:
            raise Violation('parsing: ' + show(r))
        if r[0] and not r[2].strip():
            raise Violation('rejected without a diagnostic: ' + show(r))
        return case['f'] if len(case['src']) > 20 else []
    if k == 'pp' and case['src'] is None:
        r = env.run([env.bins['plain'], '-s', case['name']])
    elif k == 'mut' and not syntax_error(env, case['src']):
        return []
    else:
        r = env.bic(case['src'])
    why = rejected(r)
    if why:
        raise Violation('%s: %s\n%s' % (k, why, show(r)))
    return case['f']


def render(case):
    return case['src'] if case['src'] is not None else 'script ' + case['name']
