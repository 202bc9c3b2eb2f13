"""R02: ?name reports the object's real type, value, size and origin."""
from session import *
from engine import Violation, show
from R01 import compare

PROP = 'R02'
COUNTS = {'quick': 900, 'thorough': 12000}
RULE = ('each case is a session in which objects of all kinds and functions are inspected at random points, at the prompt '
        'or at the prompt opened by a <REPL>; statement in a nested scope of a script function (with parameters, shadowed '
        'names, blank lines, comments and an included header), followed by the echo of every object; the model predicts '
        'the report; non-trivial: at least 4 inspections of objects; distinct by session')
ASSUMPTIONS = ['type descriptions are those of c.lang for the C type', 'addresses are not compared']


def inspect_line(d, s, where):
    """(line, expected)"""
    names = list(s.vars)
    k = d.int(0, 9)
    if k == 0:
        n = d.pick(['nope', 'undefined_x', 'zz9', 'mai', 'print'])
        return '?' + n, 'Object not found'
    if k == 1 and s.funcs:
        f = d.pick(list(s.funcs))
        return '?' + f, '%s is a External function.\n%s was declared at: %s' % (f, f, where.get(f, '<REPL>:1'))
    names = [n for n in names if show_value(s.vars[n]) is not None]
    if not names:
        return None
    n = d.pick(names[-6:] if d.bool() else names)
    s.kinds.add('inspect ' + type(s.vars[n]).__name__)
    return d.pick(['?%s', '?%s', '? %s', ' ?%s ']) % n, inspection(n, s.vars[n], where.get(n, '<REPL>:1'))


def filler(d):
    return d.pick([[], [], [''], ['', ''], ['/* a comment */'], ['// one'], ['/* two', '   lines */'], ['#define M%d 1' % d.int(0, 9)],
                   ['#if 0', 'int hidden;', '#endif']])


def gen(d):
    s = Session(d)
    where = {}
    mode = d.weighted([(3, 'prompt'), (3, 'script'), (1, 'startup')])
    src, hdr = None, None
    if mode == 'startup':
        # the objects of ~/.bic
        L = []
        for _ in range(d.int(1, 8)):
            L += filler(d)
            before = set(s.vars)
            L.append(s.line()[0])
            for n in set(s.vars) - before:
                where[n] = 'home2/.bic:%d' % len(L)
        for n in s.funcs:
            where[n] = 'home2/.bic:%d' % (1 + [i for i, l in enumerate(L) if l == s.PROTO[n]][0])
        src = '\n'.join(L) + '\n'
    if mode == 'script':
        L = []
        objs = {}

        def declare(file, out, count):
            for _ in range(count):
                out += filler(d)
                k = d.int(0, 6)
                before = set(s.vars)
                l, e = [s.decl_int, s.decl_dbl, s.decl_str, s.decl_arr, s.decl_struct, s.decl_ptr, s.decl_other][k]()
                out.append(l)
                for n in set(s.vars) - before:
                    where[n] = '%s:%d' % (file, len(out))
        H = []
        if d.bool():
            # a header: its objects are declared there
            declare('hh.h', H, d.int(1, 3))
            L += filler(d)
            L.append('#include "hh.h"')
        declare('t.c', L, d.int(0, 4))
        L += filler(d)
        # a function with parameters and inner scopes, which shadow some of the names
        shadow = [n for n, o in s.vars.items() if isinstance(o, (Cell, Dbl))]
        ps, args = [], []
        for i in range(d.int(0, 3)):
            t = d.pick(INTS)
            n = d.pick(shadow) if shadow and d.bool() else 'par%d' % i
            if n in [x[0] for x in ps]:
                n = 'par%d' % i
            v = d.int(0, 100)
            ps.append((n, t, v))
        L.append('int fun(%s) {' % ', '.join('%s %s' % (t.name, n) for n, t, v in ps))
        fline = len(L)
        for n, t, v in ps:
            s.vars[n] = Cell(t, v)
            where[n] = 't.c:%d' % len(L)
        declare('t.c', L, d.int(0, 3))
        nest = d.int(0, 2)
        for _ in range(nest):
            L.append(d.pick(['{', 'if (1) {', 'while (1) {', 'for (;;) {']))
            if shadow and d.bool():
                n = d.pick(shadow)
                t = d.pick(INTS)
                v = d.int(0, 100)
                L.append('%s %s = %d;' % (t.name, n, v))
                s.vars[n] = Cell(t, v)
                where[n] = 't.c:%d' % len(L)
            declare('t.c', L, d.int(0, 2))
        L.append('<REPL>;')
        L.append('return 7; ' + '}' * nest)
        L.append('}')
        L.append('int main() { return fun(%s); }' % ', '.join(str(v) for n, t, v in ps))
        src = '\n'.join(L) + '\n'
        hdr = '\n'.join(H) + '\n'
    lines = []
    for i in range(d.int(3, 20)):
        before = set(s.vars)
        l = inspect_line(d, s, where) if d.int(0, 2) else None
        lines.append(l or s.line())
        if i == 2 and d.chance(1, 12):
            lines += big(d, s)
            news = [n for n in s.vars if n not in before]
            for n in news[-1:] + [d.pick(news) for _ in range(3)] if news else []:
                if show_value(s.vars[n]) is not None:
                    lines.append(('?' + n, inspection(n, s.vars[n], '<REPL>:1')))
        for n in set(s.vars) - before:
            where[n] = '<REPL>:1'
    if mode == 'script' and d.bool():
        lines.append(('?fun', 'fun is a Function.\nfun was declared at: t.c:%d' % fline))
    ninsp = sum('inspect' in k for k in s.kinds)
    lines += s.dump()
    return {'mode': mode, 'src': src, 'hdr': hdr, 'lines': [l for l, _ in lines], 'exp': [e for _, e in lines],
            'kinds': sorted(s.kinds), 'ins': sum(l.strip().startswith('?') for l, _ in lines),
            'n': d.pick(['', '-2', '0', '1', '7'])}


def cases():
    return case_strategy(gen)


def render(case):
    return '\n'.join(['/* hh.h */\n' + case['hdr'] if case['hdr'] else '', case['src'] or ''] +
                     ['%-50s -> %r' % x for x in zip(case['lines'], case['exp'])])


def check(env, case):
    e = {'BIC_VERIF_GC': case['n']} if case['n'] else {}
    text = ''.join(l + '\n' for l in case['lines'])
    if case['mode'] == 'startup':
        env.write('home2/.bic', case['src'])
        e['HOME'] = 'home2'
        got = env.repl(text, env=e, timeout=60)
        status = 0
    elif case['mode'] == 'prompt':
        got = env.repl(text, env=e, timeout=60)
        status = 0
    else:
        if case['hdr']:
            env.write('hh.h', case['hdr'])
        got = env.bic(case['src'], stdin=text, env=e, timeout=60)
        status = 7
    if got[0] is None:
        return []
    compare(case['lines'], case['exp'], got)
    if got[0] != status or got[2]:
        raise Violation('the session did not end normally: ' + show(got))
    return ['mode ' + case['mode']] + case['kinds'] if case['ins'] >= 4 else []
