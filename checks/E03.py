"""E03: storing, casting, passing or returning a value converts it as C does."""
from cgen import *
from engine import expect_same

PROP = 'E03'
COUNTS = {'quick': 4500, 'thorough': 60000}
RULE = ('each case is a program of up to 8 conversions: a value of one of 13 arithmetic types (or pointer to '
        'pointer) held by one of 7 kinds of source, stored through one of 11 ways into an object of another type, '
        'then printed with its neighbours, or of up to 4 values of one type converted to all types that can take '
        'them; non-trivial: at least one conversion changes the value or crosses '
        'integer/floating; distinct by program text')
ASSUMPTIONS = ['floating to integer conversions out of the range of the integer type are undefined and not generated',
               'gcc -O0 is a correct C compiler for the generated programs']


class F:
    def __init__(self, name, fmt):
        self.name, self.fmt, self.signed = name, fmt, True


FLOAT, DOUBLE, LDOUBLE = F('float', '%.9g'), F('double', '%.17g'), F('long double', '%.20Lg')
ALL = INTS + [FLOAT, DOUBLE, LDOUBLE]


def isf(t):
    return isinstance(t, F)


def exact(d, lo, hi):
    """An integer with more than 53 bits, which only a long double can hold."""
    v = d.pick([(1 << 53) + 1, (1 << 62) + d.int(1, 999), (1 << 63) - 1 - d.int(0, 99), (1 << 63) + d.int(1, 99),
                (1 << 64) - 1 - d.int(0, 99), d.int(1 << 53, (1 << 63) - 1)])
    if v > hi:
        v = (v >> 2) | 1
    return '-' if lo < 0 and d.bool() else '', v


def fval(d, lo, hi):
    """A float literal text with a value strictly within lo..hi (when truncated)."""
    k = d.int(0, 8)
    if k >= 7:
        # the upper part of the range
        iv = hi // 2 + d.int(0, hi // 3)
    elif k >= 5:
        # any magnitude
        b = d.int(0, 63)
        iv = (1 << b) + d.int(0, (1 << b) - 1)
    elif k == 0:
        iv = d.int(0, 300)
    elif k == 1:
        iv = d.int(0, 70000)
    elif k == 2:
        iv = d.int(0, 1 << 33)
    elif k == 3:
        iv = d.pick([127, 128, 255, 256, 32767, 65535, 65536, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1,
                     1 << 40, (1 << 53) + 1])
    else:
        iv = d.int(0, 9)
    neg = d.bool() and lo < 0
    # stay clear of the limits, float rounds upwards
    while (-iv if neg else iv) < lo * 0.99 or (-iv if neg else iv) > hi * 0.99:
        iv //= 3
    frac = d.pick(['0', '5', '25', '75', '1', '9', '999', '5000001', '0625', '125'])
    # (negative zero is a known finding)
    return neg and (iv > 0 or frac != '0'), '%d.%s' % (iv, frac)


def source(d, t, dst, n, glob, loc):
    """An expression of type t whose value is in range for dst."""
    if t is LDOUBLE and not isf(dst) and dst.bits == 64 and d.bool():
        neg, v = exact(d, dst.lo, dst.hi)
        lv = 'x%d' % n
        glob.append('long double %s(void) { %s u = %s%s; long double r = u; return r; }' % (
            lv, 'long' if neg else 'unsigned long', neg, v))
        s = 's%d' % n
        if d.bool():
            return lv + '()', True
        loc.append('long double %s = %s();' % (s, lv))
        return s, True
    if isf(t):
        lo, hi = (dst.lo, dst.hi) if not isf(dst) else (-1e18, 1e18)
        neg, text = fval(d, lo, hi)
        init = ('-' if neg else '') + text
        changes = True
    else:
        v = value(d, t)
        if isf(dst) and t.bits == 64 and d.bool():
            # around the middle of two adjacent floating point numbers
            bits, hi = (24, 63) if dst is FLOAT else (53, 63)
            s = d.int(1, hi - bits)
            m = (1 << (bits - 1)) + d.int(0, (1 << (bits - 1)) - 1)
            v = (m << s) + (1 << (s - 1)) + d.int(-1, 1)
            if t.signed and d.bool():
                v = -v
        if v == LONG.lo:
            v += 1
        init = literal(d, v).text
        changes = isf(dst) or not dst.fits(v)
    k = d.int(0, 6)
    s = 's%d' % n
    if k == 0 and not isf(t):
        return init, changes          # a literal
    if k == 0 and t is DOUBLE and '-' not in init:
        return init, changes
    if k == 1:
        glob.append('%s %s;' % (t.name, s))
        loc.append('%s = %s;' % (s, init))
        return s, changes
    if k == 2:
        glob.append('%s %s[3];' % (t.name, s))
        loc.append('%s[1] = %s;' % (s, init))
        return s + '[1]', changes
    if k == 3:
        glob.append('struct S%d { char c; %s m; char d; };' % (n, t.name))
        loc.append('struct S%d %s;' % (n, s))
        loc.append('%s.m = %s;' % (s, init))
        return s + '.m', changes
    if k == 4:
        loc.append('%s %s = %s;' % (t.name, s, init))
        loc.append('%s *p%s;' % (t.name, s))
        loc.append('p%s = &%s;' % (s, s))
        return '*p' + s, changes
    if k == 5:
        glob.append('%s %s(void) { return %s; }' % (t.name, s, init))
        return s + '()', changes
    loc.append('%s %s = %s;' % (t.name, s, init))
    return s, changes


def matrix(d):
    """Each of a few values of a type, converted to all types that can take it."""
    src, way = d.pick(ALL), d.int(0, 4)
    glob, loc, body = [], [], []
    for i, t in enumerate(ALL):
        if way == 2:
            glob.append('void f%d(%s x) { printf("%s ", x); }' % (i, t.name, t.fmt))
        elif way == 3:
            glob.append('%s f%d(void) { return s; }' % (t.name, i))
        elif way == 4:
            glob.append('%s o%d;' % (t.name, i))
    for n in range(d.int(1, 4)):
        lo = hi = None
        if isf(src):
            lo, hi = d.pick([(-120, 120), (0, 250), (-32000, 32000), (-2147483000, 2147483000), (0, 4294960000),
                             (LONG.lo, LONG.hi), (0, ULONG.hi), (0, ULONG.hi)])
            neg, text = fval(d, lo, hi)
            init, v = ('-' if neg else '') + text, int(text.split('.')[0]) * (-1 if neg else 1)
        else:
            v = value(d, src)
            if src.bits == 64 and d.bool():
                s = d.int(1, 39)
                v = (((1 << 23) + d.int(0, (1 << 23) - 1)) << s) + (1 << (s - 1)) + d.int(-1, 1)
            if v == LONG.lo:
                v += 1
            init = literal(d, v).text
        body.append('s = %s;' % init)
        for i, t in enumerate(ALL):
            if isf(src) and not isf(t) and not (t.lo <= v - 1 and v + 1 <= t.hi and (abs(v) < 1 << 60 or t.lo * 0.99 < v < t.hi * 0.99)):
                continue
            if way == 0:
                body.append('printf("%s ", (%s)s);' % (t.fmt, t.name))
            elif way == 1:
                body.append('{ %s o = s; printf("%s ", o); }' % (t.name, t.fmt))
            elif way == 2:
                body.append('f%d(s);' % i)
            elif way == 3:
                body.append('printf("%s ", f%d());' % (t.fmt, i))
            else:
                body.append('o%d = s; printf("%s ", o%d);' % (i, t.fmt, i))
    text = 'extern int printf(const char *f, ...);\n%s s;\n' % src.name + '\n'.join(glob) + '\nint main() {\n' + \
        '\n'.join(loc + body) + '\nreturn 0;\n}\n'
    return {'src': text, 'f': ['matrix', 'matrix way%d' % way], 'nt': True}


def gen(d):
    if d.chance(1, 4):
        return matrix(d)
    glob, loc, body, feats = [], [], [], set()
    nt = False
    for n in range(d.int(1, 8)):
        dst, src = d.pick(ALL), d.pick(ALL)
        e, changes = source(d, src, dst, n, glob, loc)
        nt |= changes
        feats.add(('f' if isf(src) else 'i') + '->' + ('f' if isf(dst) else 'i'))
        if not isf(src) and not isf(dst) and dst.bits > src.bits:
            feats.add('widen')
        if not isf(src) and not isf(dst) and dst.bits < src.bits:
            feats.add('narrow')
        o, name, fmt = 'd%d' % n, dst.name, dst.fmt
        way = d.int(0, 11)
        feats.add('way%d' % way)
        k1, k2 = d.int(-100, 100), d.int(-100, 100)
        if way == 0:
            body.append('%s %s = %s; printf("%s\\n", %s);' % (name, o, e, fmt, o))
        elif way == 1:
            glob.append('%s %s;' % (name, o))
            body.append('%s = %s; printf("%s\\n", %s);' % (o, e, fmt, o))
        elif way == 2:
            glob.append('%s %s[3];' % (name, o))
            i = d.int(0, 2)
            body.append('%s[0] = %d; %s[1] = %d; %s[2] = %d; %s[%d] = %s; printf("%s %s %s\\n", %s[0], %s[1], %s[2]);'
                        % (o, k1 & 127, o, k2 & 127, o, 77, o, i, e, fmt, fmt, fmt, o, o, o))
        elif way == 3:
            a, b = d.pick(INTS), d.pick(INTS)
            glob.append('struct D%d { %s a; %s m; %s b; };' % (n, a.name, name, b.name))
            glob.append('struct D%d %s;' % (n, o))
            body.append('%s.a = %d; %s.b = %d; %s.m = %s; printf("%s %s %s\\n", %s.a, %s.m, %s.b);'
                        % (o, k1, o, k2, o, e, a.fmt, fmt, b.fmt, o, o, o))
        elif way == 4:
            glob.append('%s %s[3];' % (name, o))
            body.append('{ %s *p; p = &%s[1]; *p = %s; printf("%s %s %s\\n", %s[0], *p, %s[2]); }'
                        % (name, o, e, fmt, fmt, fmt, o, o))
        elif way == 5:
            body.append('printf("%s\\n", (%s)%s);' % (fmt, name, e if e[0] != '-' else '(%s)' % e))
        elif way == 6:
            glob.append('void %s(%s x, char y) { printf("%s %%d\\n", x, y); }' % (o, name, fmt))
            body.append('%s(%s, %d);' % (o, e, k1))
        elif way == 7:
            # the returned expression is a global of the source type or a literal
            glob.append('%s g%d;' % (src.name, n))
            glob.append('%s %s(void) { return g%d; }' % (name, o, n))
            body.append('g%d = %s; printf("%s\\n", %s());' % (n, e, fmt, o))
        elif way == 8:
            glob.append('%s %s(%s x) { return x; }' % (name, o, src.name))
            body.append('printf("%s\\n", %s(%s));' % (fmt, o, e))
        elif way == 9:
            # chained assignment through an object of a third type
            mid = d.pick(ALL) if not (isf(src) and not isf(dst)) else src
            if isf(mid) and not isf(dst):
                mid = src if isf(src) else LONG
            if isf(src) and not isf(mid):
                mid = src
            glob.append('%s m%d;' % (mid.name, n))
            glob.append('%s %s;' % (name, o))
            body.append('%s = m%d = %s; printf("%s %s\\n", %s, m%d);' % (o, n, e, fmt, mid.fmt, o, n))
        elif way == 10:
            glob.append('%s %s(%s x) { static %s y; y = x; return y; }' % (name, o, name, name))
            body.append('{ %s z; z = %s(%s); printf("%s\\n", z); }' % (name, o, e, fmt))
        else:
            # pointer to pointer
            body.append('{ char *a; void *b; int *c; a = (char *)&k%d; b = a; c = (int *)b; *c = %d; '
                        'printf("%%d %%d\\n", k%d, (int *)a == c); }' % (n, k1, n))
            glob.append('int k%d;' % n)
    glob.sort(key=lambda g: '{' in g and 'struct' not in g)
    text = 'extern int printf(const char *f, ...);\n' + '\n'.join(glob) + '\nint main() {\n' + \
        '\n'.join(loc + body) + '\nreturn 0;\n}\n'
    return {'src': text, 'f': sorted(feats), 'nt': nt}


FINDINGS = {'negative-zero': {'src': 'extern int printf(const char *f, ...);\nint main() { double d = -0.0; '
                             'printf("%.9g\\n", d); return 0; }\n', 'f': [], 'nt': False}}


def cases():
    return case_strategy(gen)


def check(env, case):
    expect_same(env.gcc(case['src']), env.bic(case['src']))
    return case['f'] if case['nt'] else []
