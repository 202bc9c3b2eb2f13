"""E01: integer expressions have the value compiled C gives them.

Programs over integer objects with known values; every sub-expression is built
so that its exact value is representable in its C type.  Oracle: gcc."""
from cgen import *
import scale
from engine import expect_same

PROP = 'E01'
COUNTS = {'quick': 5000, 'thorough': 60000}
RULE = ('each case is a program of up to 8 integer expressions (up to depth 5, ~4-40 operators) over literals '
        'and objects of all 10 integer types reached as globals, locals, elements, members, pointees or function '
        'results, evaluated in 7 kinds of context, or of up to 16 single operators over pairs of equal, adjacent or boundary '
        'operands; non-trivial: at least one expression with two or more operators, or two expressions; one case in 14 is extreme in one dimension (lib/scale.py); distinct by program text')
ASSUMPTIONS = ['gcc -O0 -fwrapv is a correct C compiler for the generated programs',
               'expressions in which C\'s conversions change an operand\'s exact value are outside the domain']


def objects(d):
    """Declarations and leaves for objects of various kinds with known values."""
    glob, loc, leaves = [], [], []
    kinds = ['g', 'l', 'a', 'm', 'p', 'f']
    for i in range(d.int(1, 7)):
        t = d.pick(INTS)
        v = value(d, t)
        if v == LONG.lo:
            v += 1
        k = d.pick(kinds)
        init = literal(d, v).text
        n = '%s%d' % (k, i)
        if k == 'g':
            glob.append('%s %s = %s;' % (t.name, n, init) if v >= 0 else '%s %s;' % (t.name, n))
            if v < 0:
                loc.append('%s = %s;' % (n, init))
            toks = [n]
        elif k == 'l':
            loc.append('%s %s = %s;' % (t.name, n, init))
            toks = [n]
        elif k == 'a':
            glob.append('%s %s[4];' % (t.name, n))
            j = d.int(0, 3)
            loc.append('%s[%d] = %s;' % (n, j, init))
            toks = [n, '[', str(j), ']']
        elif k == 'm':
            glob.append('struct s%d { char c; %s m; } %s;' % (i, t.name, n) if False else
                        'struct s%d { char c; %s m; };' % (i, t.name))
            glob.append('struct s%d %s;' % (i, n))
            loc.append('%s.m = %s;' % (n, init))
            toks = [n, '.', 'm']
            if d.bool():
                loc.append('struct s%d *q%d;' % (i, i))
                loc.append('q%d = &%s;' % (i, n))
                toks = ['q%d' % i, '->', 'm']
        elif k == 'p':
            loc.append('%s o%d = %s;' % (t.name, i, init))
            loc.append('%s *%s;' % (t.name, n))
            loc.append('%s = &o%d;' % (n, i))
            toks = ['*', n]
        else:
            glob.append('%s %s(void) { return %s; }' % (t.name, n, init))
            toks = [n, '(', ')']
        leaves.append(X(toks, 15 if k == 'p' else 17, t, v))
    return glob, loc, leaves


def pairs(d):
    """Single operators over pairs of related operands (equal, neighbours, boundaries)."""
    loc, body, ops = [], [], []
    tu = [UINT, ULONG, ULLONG, LONG, LLONG]
    for n in range(d.int(1, 16)):
        t = d.pick(tu) if d.bool() else d.pick(INTS)
        w = t if d.bool() else d.pick(INTS)
        v = value(d, t)
        k = d.int(0, 4)
        x = v + d.int(-1, 1) if k <= 1 else v ^ (1 << d.int(0, 63)) if k == 2 else value(d, w)
        if not t.fits(v) or v == LONG.lo:
            v = 3
        if not w.fits(x) or x == LONG.lo:
            x = value(d, w)
            x += x == LONG.lo
        loc.append('%s a%d = %s;' % (t.name, n, literal(d, v).text))
        loc.append('%s b%d = %s;' % (w.name, n, literal(d, x).text))
        a = X(['a%d' % n], 17, t, v) if d.chance(5, 6) else literal(d, v)
        b = X(['b%d' % n], 17, w, x) if d.chance(5, 6) else literal(d, x)
        es = []
        for op in BINOP_LIST:
            e = combine(d, op, a, b)
            if e:
                es.append(e)
        if es:
            e = d.pick(es)
            ops.append(e.ops)
            body.append('printf("%s\\n", %s);' % (e.t.fmt, e.paren().text if e.prec == 1 else e.text))
    src = 'extern int printf(const char *f, ...);\nint main() {\n  ' + '\n  '.join(loc + body) + '\n  return 0;\n}\n'
    return {'src': src, 'f': sorted({o for x in ops for o in x}), 'nt': len(ops) > 1}


def gen(d):
    if d.chance(1, 3):
        return pairs(d)
    glob, loc, leaves = objects(d)

    def leaf(d):
        if leaves and d.chance(3, 5):
            return d.pick(leaves)
        return literal(d)

    body, ops = [], []
    helpers = set()
    body += ['long r;', 'unsigned long u;', 'int i;']
    sep = sep_fn(d)
    for n in range(d.int(1, 8)):
        e = expr(d, leaf, d.int(1, 5))
        ops.append(e.ops)
        ctx = d.int(0, 7)
        if e.prec == 1:
            e = e.paren()
        s = join(e.toks, sep)
        if ctx == 0:
            body.append('printf("%%ld\\n", (long)(%s));' % s)
        elif ctx == 1 and LONG.fits(e.v):
            body.append('r = %s; printf("%%ld\\n", r);' % s)
        elif ctx == 2:
            body.append('if (%s) puts("yes"); else puts("no");' % s)
        elif ctx == 3 and e.v >= 0:
            body.append('u = %s; printf("%%lu\\n", u);' % s)
        elif ctx == 4:
            body.append('printf("%s\\n", %s);' % (e.t.fmt, s))
        elif ctx == 5:
            helpers.add(e.t)
            body.append('printf("%%lld\\n", id%s(%s));' % (INTS.index(e.t), s))
        elif ctx == 6:
            body.append('i = 0; while ((%s) == (%s)) { if (++i > 2) break; } printf("%%d\\n", i);'
                        % (s, literal(d, e.v if e.v != LONG.lo else 0).text))
        else:
            body.append('%s v%d = %s; printf("%%lld\\n", (long long)v%d);' % (e.t.name, n, s, n))
    for t in helpers:
        glob.append('long long id%d(%s x) { return x; }' % (INTS.index(t), t.name))
    glob.sort(key=lambda g: '(' in g)
    src = 'extern int printf(const char *f, ...);\nextern int puts(const char *s);\n'
    src += '\n'.join(glob) + '\nint main() {\n  ' + '\n  '.join(loc + body) + '\n  return 0;\n}\n'
    f = sorted({o for x in ops for o in x})
    return {'src': src, 'f': f, 'nt': max(len(x) for x in ops) >= 2}


def cases():
    return case_strategy(scale.mixed(gen, PROP))


def check(env, case):
    ref = env.gcc(case['src'])
    expect_same(ref, env.bic(case['src']))
    if case.get('scale'):
        return case['f']
    return case['f'] if case['nt'] else []
