"""Programs that are ordinary in kind and extreme in one dimension: number, depth, length, distance."""
from cgen import *

P = 'extern int printf(const char *f, ...);\nextern int puts(const char *s);\n'
SZ = [9, 12, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 70, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 511, 512, 513,
      600, 1000, 1023, 1024, 1025, 1500, 2000, 2047, 2049, 3000, 4095, 4097, 5000, 8191, 8193, 10000, 16385, 20000, 32767,
      32768, 32769, 40000, 65535, 65536, 65537, 70000, 100000]


def size(d, hi, lo=9):
    """Log-uniform like: edges of powers of two are as likely as round numbers."""
    return d.pick([x for x in SZ if lo <= x <= hi])


def main(body, top='', ret='return 0;'):
    return P + top + '\nint main() {\n' + body + '\n' + ret + '\n}\n'


# -- expressions ----------------------------------------------------------
def e01(d):
    k = d.int(0, 6)
    n = size(d, 1025)
    top = 'int a; long b; unsigned char c; short s;'
    init = 'a = %d; b = %d; c = %d; s = %d;\n' % (d.int(1, 9), d.int(1, 9), d.int(1, 9), d.int(1, 9))
    v = lambda: d.pick(['a', 'b', 'c', 's', str(d.int(1, 99))])
    vs = [v() for _ in range(7)]
    if k == 0:
        ops = [d.pick(['+', '-', '^', '|', '+']) for _ in range(5)]
        e = vs[0] + ''.join(' %s %s' % (ops[i % 5], vs[i % 7]) for i in range(n))
    elif k == 1:
        n = size(d, 300)
        e = '(' * n + vs[0] + ''.join(' %s %s)' % (d.pick(['+', '-', '^']) if i < 8 else '+', vs[i % 7]) for i in range(n))
    elif k == 2:
        n = size(d, 300)
        ops = [d.pick(['-', '+', '^', '&', '|']) for _ in range(5)]
        e = ''.join('%s %s (' % (vs[i % 7], ops[i % 5]) for i in range(n)) + vs[0] + ')' * n
    elif k == 3:
        n = size(d, 300)
        e = ''.join(d.pick(['!', '~', '- ', '(int) ']) if i < 9 else '~' for i in range(n)) + vs[0]
    elif k == 4:
        n = size(d, 300)
        sel = d.int(0, n)
        e = ''.join('a == %d ? %d : ' % (20 + i if i != sel else 0, i) for i in range(n)) + '-1'
        init += 'a = %d;' % d.pick([0, 1])
    elif k == 5:
        e = ' , '.join(vs[i % 7] for i in range(n))
        e = '(%s)' % e
    else:
        n = size(d, 400)
        e = ' * '.join(d.pick(['1', '(-1)']) if i < 9 else '1' for i in range(n)) + ' * b / 1 % 1000'
    return main(init + 'printf("%%ld\\n", (long)(%s));\nb = (%s); printf("%%ld\\n", b);' % (e, e), top), 'scale-expr%d' % k


def e02(d):
    k = d.int(0, 4)
    n = size(d, 600)
    top = 'int tr(int i, int r) { printf("%d ", i); return r; }\nint x;\nint add(int a, int b) { return (a + b) % 1000; }\n'
    stop = d.int(0, n)
    if k == 0:
        e = ' && '.join('tr(%d, %d)' % (i, i != stop) for i in range(n))
    elif k == 1:
        e = ' || '.join('tr(%d, %d)' % (i, i == stop) for i in range(n))
    elif k == 2:
        e = '(' + ', '.join('tr(%d, %d)' % (i, i) for i in range(n)) + ')'
    elif k == 3:
        e = ''.join('tr(%d, %d) ? tr(%d, 7) : ' % (i, i == stop, i + 5000) for i in range(min(n, 300))) + 'tr(-1, -1)'
    else:
        n = min(n, 150)
        e = ''.join('add(tr(%d, %d), ' % (i, i % 5) for i in range(n)) + '1' + ')' * n
        # the order of the arguments is open, only one has an effect
        e = e.replace('tr(', '(', 0)
        e = ''.join('add(%d, ' % (i % 7) for i in range(n)) + 'tr(1, 2)' + ')' * n
    return main('x = %s;\nprintf("x %%d\\n", x); if (%s) puts("t");' % (e, e), top), 'scale-seq%d' % k


def e04(d):
    n = size(d, 2000)
    t = d.pick(['char', 'unsigned char', 'short', 'unsigned short', 'int', 'long', 'double', 'float'])
    op = d.pick(['x++;', '++x;', 'x--;', '--x;'])
    m = size(d, 70000)
    k = d.int(0, 2)
    f = '%g' if t in ('double', 'float') else '%ld'
    c = '' if t in ('double', 'float') else '(long)'
    if k == 0:
        b = '%s x = %d; int i; for (i = 0; i < %d; i++) %s printf("%s\\n", %sx);' % (t, d.int(0, 100), m, op, f, c)
    elif k == 1:
        b = '%s x = %d; %s printf("%s\\n", %sx);' % (t, d.int(0, 100), ' '.join([op] * n), f, c)
    else:
        b = '%s a[%d]; %s *p; p = &a[0]; int i; for (i = 0; i < %d; i++) *p++ = i %% 100; printf("%s %%d\\n", %s*(p - 1), p - '\
            '&a[0] == %d);' % (t, m, t, m, f, c, m)
        b = '%s printf("%s\\n", %sa[%d]);' % (b, f, c, d.int(0, m - 1))
    return main(b), 'scale-update%d' % k


# -- statements -----------------------------------------------------------
def c01(d):
    k = d.int(0, 7)
    if k == 0:
        n = size(d, 300)
        br = d.int(0, n)
        b = 'int i = 0;\n' + ''.join(d.pick(['{ ', 'if (i >= 0) { ', 'while (i < 100000) { ']) if j < 12 else '{ ' for j in range(n))
        b += 'i++; printf("%d\\n", i); ' + ('if (i > 3) i = 200000;') + ' }' * n + ' printf("end %d\\n", i);'
    elif k == 1:
        m = size(d, 70000)
        b = 'int i; int c = 0; for (i = 0; i < %d; i++) { if (i %% 7 == 3) c++; if (c > %d) break; } printf("%%d %%d\\n", i, c);' % (
            m, size(d, 10000))
    elif k == 2:
        m = size(d, 70000)
        b = 'int i = 0; int c = 0; while (i < %d) { i++; if (i %% 2) c = (c + i) %% 1000; else c = c ^ 1; } printf("%%d %%d\\n", i, c);' % m
    elif k == 3:
        n = size(d, 400)
        b = 'int i; for (i = %d; i < %d; i++) { ' % (max(0, n - d.int(2, 9)), n + 2)
        b += ''.join('if (i == %d) puts("%d"); else ' % (j, j) for j in range(n)) + 'puts("none"); }'
    elif k == 4:
        n = size(d, 2000)
        b = 'int x = 1;\n' + '\n'.join('x = (x * 3 + %d) %% 997;' % (j % 91) if j % 5 else 'if (x > %d) x = x - %d;' % (j % 300, j % 7)
                                       for j in range(n)) + '\nprintf("%d\\n", x);'
    elif k == 5:
        n = size(d, 100)
        lv = d.int(0, n - 1)
        b = ''
        for j in range(n):
            b += 'for (int i%d = 0; i%d < %d; i%d++) { ' % (j, j, 2 if j in (lv, n - 1) else 1, j)
        b += 'printf("%%d %%d\\n", i%d, i%d);' % (lv, n - 1)
        for j in range(n - 1, -1, -1):
            b += ' if (i%d == %d) break; }' % (j, d.int(0, 1) if j < 5 else 1)
    elif k == 6:
        # return out of many nested statements, repeatedly
        n = size(d, 200)
        top = 'int f(int x) { ' + ''.join(['{ ', 'while (1) { ', 'if (x) { ', 'for (;;) { '][j % 4] for j in range(n)) + \
            'return x + 1;' + ' }' * n + ' return 0; }'
        m = size(d, 600)
        return main('int i; int s = 0; for (i = 1; i < %d; i++) { int loc = i; s = (s + f(i)) %% 1000; if (loc != i) puts("bad"); } '
                    'printf("%%d\\n", s);' % m, top), 'scale-return'
    else:
        n = size(d, 70000, 200)
        q = d.int(2, 9)
        b = 'int i; int j; int c = 0; for (i = 0; i < %d; i++) { for (j = 0; j < 9; j++) { if (j == %d) break; c++; } } ' \
            'printf("%%d\\n", c);' % (n // 10, q)
    return main(b), 'scale-flow%d' % k


def c02(d):
    k = d.int(0, 6)
    if k == 0:
        n = size(d, 3000)
        top = 'int f(int n) { int loc = n %% 7; if (n == 0) return %d; int r = f(n - 1); return (r + loc) %% 1000; }' % d.int(0, 9)
        b = 'printf("%%d\\n", f(%d)); printf("%%d\\n", f(%d));' % (n, d.int(0, 20))
    elif k == 1:
        n = size(d, 127)
        ts = [d.pick(['int', 'char', 'long', 'short', 'unsigned char', 'long long']) for _ in range(9)]
        top = 'long f(%s) { %s return %s; }' % (
            ', '.join('%s p%d' % (ts[j % 9], j) for j in range(n)),
            ' '.join('printf("%%ld ", (long)p%d);' % j for j in range(n)), ' + '.join('p%d' % j for j in range(n)))
        b = 'printf("= %%ld\\n", f(%s));' % ', '.join(str((j * 7 + 3) % 100) for j in range(n))
    elif k == 2:
        n = size(d, 600)
        top = '\n'.join('int f%d(int x) { return %s; }' % (j, 'x + %d' % (j % 10) if j == 0 else 'f%d(x) %% 1000 + %d' % (
            max(0, j - d.int(1, 2) if j < 9 else j - 2), j % 10)) for j in range(n))
        b = 'printf("%%d\\n", f%d(3)); printf("%%d\\n", f%d(4));' % (n - 1, d.int(0, n - 1))
    elif k == 3:
        m = size(d, 40000)
        top = 'int g; %s f(%s a, int b) { int x = a; x = x + b; g = g + 1; return x; }' % (
            d.pick(['int', 'long', 'short']), d.pick(['int', 'char', 'long']))
        b = 'int i; int s = 0; for (i = 0; i < %d; i++) s = (s + f(i %% 100, %d)) %% 10007; printf("%%d %%d\\n", s, g);' % (m, d.int(0, 9))
    elif k == 4:
        n = size(d, 1000)
        top = 'int even(int n); int odd(int n) { if (n == 0) return 0; return even(n - 1); }\n' \
              'int even(int n) { if (n == 0) return 1; return odd(n - 1); }'
        b = 'printf("%%d %%d\\n", even(%d), odd(%d));' % (n, n)
    elif k == 5:
        n = size(d, 150)
        top = 'int f(int a, int b) { int c = a - b; return (c * 2 + b) % 101; }'
        b = 'printf("%%d\\n", %s);' % (''.join('f(%d, ' % (j % 13) for j in range(n)) + '1' + ')' * n)
    else:
        n = size(d, 600)
        top = 'void walk(int *p, int n) { int mine = n; if (n == 0) return; walk(&mine, n - 1); *p = (*p + mine) % 1000; }'
        b = 'int x = 5; walk(&x, %d); printf("%%d\\n", x);' % n
    return main(b, top), 'scale-call%d' % k


def c03(d):
    k = d.int(0, 5)
    if k == 0:
        n = size(d, 2000)
        q = [d.int(0, n - 1) for _ in range(6)] + [0, n - 1]
        top = '\n'.join('int g%d;' % j for j in range(n))
        b = '\n'.join('g%d = %d;' % (j, i + 1) for i, j in enumerate(q)) + 'printf("%s\\n", %s);' % (
            '%d ' * len(q), ', '.join('g%d' % j for j in q))
        b += 'printf("%%d\\n", %s);' % ' + '.join('g%d' % j for j in range(0, n, max(1, n // 50)))
    elif k == 1:
        n = size(d, 2000)
        q = [d.int(0, n - 1) for _ in range(6)] + [0, n - 1]
        top = ''
        b = '\n'.join('int v%d = %d;' % (j, j) for j in range(n)) + 'printf("%s\\n", %s);' % (
            '%d ' * len(q), ', '.join('v%d' % j for j in q))
    elif k == 2:
        n = size(d, 200)
        top = 'int x = %d;' % d.int(1, 9) if d.bool() else 'int x;'
        b = 'printf("%d\\n", x); '
        for j in range(n):
            b += '{ int x = %d; ' % (j + 10) if j % 3 != 1 else '{ printf("%d ", x); '
        b += 'x = x + 1; '
        for j in range(n):
            b += 'printf("%d ", x); }'
        b += 'printf("%d\\n", x);'
    elif k == 3:
        n = size(d, 300)
        m = size(d, 3000)
        top = 'int f(void) { %s return %s; }' % (' '.join('static int s%d = %d; s%d++;' % (j, j, j) for j in range(min(n, 60))),
                                                ' + '.join('s%d' % j for j in range(min(n, 60))))
        b = 'int i; int r; for (i = 0; i < %d; i++) r = f(); printf("%%d\\n", r);' % min(m, 600)
    elif k == 4:
        # a long name that differs in one place
        n = size(d, 400)
        base = 'n' * n
        p = d.int(1, n - 1)
        a, c = base, base[:p] + 'm' + base[p + 1:]
        top = 'int %s; int %s;' % (a, c)
        b = '%s = 1; %s = 2; { int %s = 3; printf("%%d %%d\\n", %s, %s); } printf("%%d %%d\\n", %s, %s);' % (a, c, a, a, c, a, c)
    else:
        n = size(d, 400)
        top = '\n'.join('int fn%d(void) { int loc; static int st; loc = %d; st = st + loc; return st; }' % (j, j) for j in range(n))
        b = ' '.join('fn%d();' % j for j in range(n)) + ' '.join('printf("%%d\\n", fn%d());' % d.int(0, n - 1) for _ in range(5))
    return main(b, top), 'scale-names%d' % k


# -- types ----------------------------------------------------------------
def t01(d):
    k = d.int(0, 3)
    n = size(d, 600)
    base = d.pick(['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned long', 'long long', 'float', 'double'])
    f = '%g' if base in ('float', 'double') else '%ld'
    c = '' if base in ('float', 'double') else '(long)'
    if k == 0:
        top = 'typedef %s t0;\n' % base + '\n'.join('typedef t%d t%d;' % (j, j + 1) for j in range(n))
        b = 't%d x; x = 70; x = x; printf("%%d %s\\n", (int)sizeof(t%d), %sx); x--; x--; printf("%%d\\n", (int)sizeof x);' % (n, f, n, c)
    elif k == 1:
        n = size(d, 40)
        top = 'typedef %s t0;\n' % base + '\n'.join('typedef t%d *t%d;' % (j, j + 1) for j in range(n))
        b = '%s\nt0 x; x = 5; %s printf("%%d %s\\n", (int)sizeof(v%d), %s%sv%d);' % (
            ' '.join('t%d v%d;' % (j + 1, j + 1) for j in range(n)),
            'v1 = &x; ' + ' '.join('v%d = &v%d;' % (j + 1, j) for j in range(1, n)), f, n, c, '*' * n, n)
    elif k == 2:
        top = '\n'.join('typedef %s ty%d;' % (d.pick(['char', 'short', 'int', 'long', 'double', 'unsigned short']) if j < 9 else
                                             ['char', 'short', 'int', 'long', 'float'][j % 5], j) for j in range(n))
        q = [d.int(0, n - 1) for _ in range(8)] + [0, n - 1]
        b = 'printf("%s\\n", %s);' % ('%d ' * len(q), ', '.join('(int)sizeof(ty%d)' % j for j in q))
    else:
        qs = ' '.join(d.pick(['const', 'volatile']) for _ in range(9))
        n = size(d, 100)
        words = base.split()
        b = '%s %s x; x = 7; printf("%%d %s\\n", (int)sizeof(x), %sx);' % (' '.join([qs] * (n // 9)), base, f, c)
        b = b.replace('x = 7;', '').replace(' x;', ' x = 7;')
        top = ''
    return main(b, top), 'scale-types%d' % k


SC = ['char', 'short', 'int', 'long', 'double', 'float', 'unsigned char', 'long long']


def t02(d):
    k = d.int(0, 4)
    show = 'printf("%%d %%d\\n", (int)sizeof(%s), (int)((char *)&%s - (char *)&o));'
    if k == 0:
        n = size(d, 600)
        ts = [d.pick(SC) for _ in range(11)]
        top = '%s S { %s };' % (d.pick(['struct', 'struct', 'union']), ' '.join('%s m%d;' % (ts[j % 11], j) for j in range(n)))
        kw = top.split()[0]
        q = [d.int(0, n - 1) for _ in range(8)] + [0, n - 1]
        b = '%s S o; %s S a[3]; printf("%%d %%d\\n", (int)sizeof(o), (int)((char *)&a[2] - (char *)&a[0]));' % (kw, kw)
        b += ' '.join(show % ('o.m%d' % j, 'o.m%d' % j) for j in q)
    elif k == 1:
        n = size(d, 100)
        top = 'struct S0 { %s a; %s b; };\n' % (d.pick(SC), d.pick(SC))
        kws = [d.pick(['struct', 'struct', 'union']) for _ in range(5)]
        for j in range(1, n):
            kw = kws[j % 5]
            top += '%s S%d { %s x; %s S%d in; %s y; };\n' % (kw, j, SC[(j * 3) % 8], kws[(j - 1) % 5] if j > 1 else 'struct', j - 1,
                                                           SC[(j * 5) % 8])
        p = 'o' + '.in' * (n - 1)
        b = '%s S%d o; printf("%%d\\n", (int)sizeof(o)); ' % (kws[(n - 1) % 5] if n > 1 else 'struct', n - 1)
        b += show % (p + '.b', p + '.b')
        q = d.int(0, n - 1)
        b += show % ('o' + '.in' * q, 'o' + '.in' * q)
    elif k == 2:
        n = size(d, 400)
        top = '\n'.join('struct T%d { %s a; char b[%d]; %s c; };' % (j, SC[j % 8], j % 13 + 1, SC[(j * 3) % 8]) for j in range(n))
        b = ' '.join('printf("%%d ", (int)sizeof(struct T%d));' % d.int(0, n - 1) for _ in range(9))
        j = n - 1
        b += 'struct T%d o; ' % j + show % ('o.c', 'o.c')
    elif k == 3:
        n = size(d, 100000)
        t1, t2 = d.pick(SC), d.pick(SC)
        top = 'struct S { %s a; %s arr[%d]; %s z; };' % (t1, t2, n, t1)
        b = 'struct S *p; struct S o; p = &o; ' + show % ('o.z', 'o.z') + show % ('o.arr', 'o.arr[0]') + \
            'printf("%%d %%d\\n", (int)sizeof(struct S), (int)((char *)&p->arr[%d] - (char *)p));' % (n - 1)
        b += 'o.z = 5; o.arr[%d] = 6; o.a = 7; printf("%%d %%d %%d\\n", (int)o.a, (int)o.arr[%d], (int)o.z);' % (n - 1, n - 1)
    else:
        n = size(d, 60)
        # inline nesting
        top = 'struct S { char c; %s int leaf; %s };' % (''.join('struct { short s%d; ' % j for j in range(n)),
                                                        ' '.join('} in%d;' % j for j in range(n - 1, -1, -1)))
        p = 'o' + ''.join('.in%d' % j for j in range(n)) + '.leaf'
        b = 'struct S o; ' + show % (p, p) + '%s = 9; printf("%%d %%d\\n", %s, (int)sizeof(o));' % (p, p)
    return main(b, top), 'scale-layout%d' % k


def t03(d):
    k = d.int(0, 5)
    top = ''
    if k == 0:
        t = d.pick(['char', 'short', 'int', 'long', 'double', 'float', 'unsigned char'])
        n = size(d, 100000)
        q = sorted({d.int(0, n - 1) for _ in range(8)} | {0, n - 1})
        c = '(int)'
        b = '%s a[%d]; %s *p; p = &a[%d];\n' % (t, n, t, n // 2)
        b += ' '.join('a[%d] = %d;' % (j, i + 1) for i, j in enumerate(q))
        b += 'printf("%s\\n", %s);' % ('%d ' * len(q), ', '.join('%sp[%d]' % (c, j - n // 2) for j in q))
        b += ' '.join('p[%d] = %d;' % (j - n // 2, i + 50) for i, j in enumerate(q))
        b += '%s i; ' % d.pick(['int', 'long', 'unsigned int', 'long long'])
        b += ' '.join('i = %d; printf("%%d ", %sa[i]);' % (j, c) for j in q)
        top, b = (b.split('\n')[0].split(';')[0] + ';', b.split(';', 1)[1]) if d.bool() else ('', b)
    elif k == 1:
        n = size(d, 30)
        b = 'int x; x = 3; ' + ''.join('int %sp%d; p%d = &%s;' % ('*' * j, j, j, 'p%d' % (j - 1) if j > 1 else 'x')
                                       for j in range(1, n + 1))
        b += '%sp%d = 7; printf("%%d %%d\\n", x, %sp%d);' % ('*' * n, n, '*' * n, n)
    elif k == 2:
        n = size(d, 2000)
        top = 'struct N { int v; struct N *next; }; extern void *malloc(unsigned long n);'
        b = 'struct N *h; struct N *t; int i; int s = 0; h = 0; for (i = 0; i < %d; i++) { t = malloc(sizeof(struct N)); t->v = i; ' \
            't->next = h; h = t; } i = 0; for (t = h; t != 0; t = t->next) { s = (s * 3 + t->v) %% 1009; i++; } printf("%%d %%d\\n", s, i); ' % n
        m = size(d, 60)
        b += 'printf("%%d\\n", h%s->v);' % ('->next' * min(m, n - 1))
    elif k == 3:
        n = size(d, 60)
        top = 'struct S0 { int v; int w; };\n' + '\n'.join('struct S%d { char c; struct S%d in; };' % (j, j - 1) for j in range(1, n))
        p = '.in' * (n - 1)
        b = 'struct S%d o; struct S%d *q; q = &o; o%s.v = 4; q->%s.w = 5; printf("%%d %%d\\n", q->%s.v, o%s.w);' % (
            n - 1, n - 1, p, p[1:], p[1:], p)
    elif k == 4:
        n = size(d, 600)
        top = 'struct S { %s };' % ' '.join('%s m%d;' % (SC[(j * j) % 8], j) for j in range(n))
        q = [d.int(0, n - 1) for _ in range(8)] + [0, n - 1]
        b = 'struct S o; struct S *p; p = &o; ' + ' '.join('o.m%d = %d;' % (j, j % 100) for j in range(n))
        b += 'p->m%d = 101; ' % d.int(0, n - 1)
        b += ' '.join('printf("%%d ", (int)p->m%d);' % j for j in q)
        b += 'printf("%%d\\n", (int)(%s));' % ' + '.join('(int)o.m%d' % j for j in range(n))
    else:
        n = size(d, 5000)
        top = 'struct S { char c; %s v; short t[3]; };' % d.pick(SC)
        j = d.int(0, n - 1)
        b = 'struct S a[%d]; int i; for (i = 0; i < %d; i += %d) { a[i].c = i %% 100; a[i].v = i %% 50; a[i].t[2] = i %% 300; } ' % (n, n, max(1, n // 200))
        b += 'struct S *p; p = &a[%d]; p->v = 77; printf("%%d %%d %%d\\n", (int)a[%d].v, a[%d].c, a[%d].t[2]); ' % (j, j, (n - 1) // max(1, n // 200) * max(1, n // 200), 0)
        b += 'printf("%%d\\n", (int)(p - &a[0]));' if True else ''
    return main(b, top), 'scale-storage%d' % k


def n01(d):
    n = size(d, 2000)
    k = d.int(0, 2)
    at = d.int(0, n - 1)
    ex = '%s' % d.pick(['-5', '100', '0x7ff0', '-2000', 'E0 + 3' if at else '3'])
    nm = lambda j: 'E%d' % j
    it = lambda j: nm(j) + (' = ' + ex if j == at else '')
    q = sorted({d.int(0, n - 1) for _ in range(8)} | {0, n - 1, at})
    show = 'printf("%s\\n", %s);' % ('%d ' * len(q), ', '.join(nm(j) for j in q))
    if k == 0:
        top = 'enum big { %s };' % ', '.join(it(j) for j in range(n))
        b = show + 'enum big v; v = %s; printf("%%d\\n", v == %s);' % (nm(q[-1]), nm(q[-1]))
    elif k == 1:
        top = '\n'.join('enum %s { %s, X%d };' % ('t%d' % j if j % 2 else '', it(j), j) for j in range(min(n, 600)))
        q = [j for j in q if j < min(n, 600)]
        b = 'printf("%s\\n", %s);' % ('%d %d ' * len(q), ', '.join('%s, X%d' % (nm(j), j) for j in q))
    else:
        n = min(n, 1000)
        at, ex = 0, '1'
        q = [j for j in q if j < n]
        top = 'enum chain { E0 = 1, %s };' % ', '.join('E%d = E%d %s %d' % (j, j - 1, '+-^'[j % 3], j % 4) for j in range(1, n))
        b = 'printf("%s\\n", %s);' % ('%d ' * len(q), ', '.join(nm(j) for j in q))
    return main(b, top), 'scale-enum%d' % k


def l01(d):
    k = d.int(0, 6)
    top = 'extern unsigned long strlen(const char *s);\nextern int strcmp(const char *a, const char *b);\n' \
          'void sum(char *s) { unsigned int h = 7; int i; for (i = 0; s[i]; i++) h = (h * 31 + s[i]) % 65521; ' \
          'printf("%d %u\\n", i, h); }\n'
    ch = [d.pick(['a', 'Z', '0', ' ', '\\n', '\\t', '\\"', '\\\\', '\\1', '\\377', '\\0601'[:4], "'", '%', ';', '/*', '//', '{'])
          for _ in range(13)]
    if k == 0:
        n = size(d, 10000)
        s = ''.join(ch[j % 13] for j in range(n))
        b = 'char *p; p = "%s"; sum(p); sum("%s"); printf("%%d\\n", strcmp(p, "%s"));' % (s, s, s)
    elif k == 1:
        n = size(d, 2000)
        b = 'char *k[%d]; int i;' % n + ' '.join('k[%d] = "s%d%s";' % (j, j, ch[j % 13] if j % 3 else '') for j in range(n))
        b += 'for (i = 0; i < %d; i += %d) sum(k[i]); sum(k[%d]);' % (n, max(1, n // 20), n - 1)
    elif k == 2:
        n = size(d, 70000)
        c = d.pick(['x', '* ', '/ ', '"', "'", '\n', '\\\n', ' '])
        b = 'int x = 4; /*%s*/ printf("%%d\\n", /*%s*/ x); //%s\n puts("end");' % (c * n, 'y' * (n // 2), ('x' if '\n' in c else c) * (n // 3))
        b = b.replace('**/', '* */')
    elif k == 3:
        n = size(d, 400)
        b = 'printf("%%ld %%ld %%d\\n", (long)%s17, (long)0x%sfF, %s);' % ('0' * n, '0' * n, "'a'")
        b += 'double f = %s1.5%s; printf("%%.17g\\n", f); f = 0.%s123; printf("%%.17g\\n", f);' % ('0' * n, '0' * n, '0' * (n % 300))
    elif k == 4:
        n = size(d, 300)
        dg = ''.join(str((j * 7 + 3) % 10) for j in range(n))
        b = 'double f; f = %s.%s; printf("%%.17g\\n", f); f = 3.%s; printf("%%.17g\\n", f); float g; g = 1.%s; printf("%%.9g\\n", g);' % (
            dg[:n // 2] or '0', dg[n // 2:], dg, dg)
    elif k == 5:
        n = size(d, 70000)
        sep = d.pick(['\n', ' ', '\t', '\\\n', '\f', '\n \n'])
        b = 'int x = 4;%sx = x%s+ 1;%sprintf("%%d\\n", x);' % (sep * n, sep * n, sep * n)
    else:
        n = size(d, 600)
        b = 'int i; for (i = 0; i < %d; i++) { char *p; p = "%s"; if (p[0] != %s) puts("bad"); if (i %% 97 == 0) sum(p); }' % (
            n, 'q' + ''.join(ch), "'q'")
    return main(b, top), 'scale-literal%d' % k


# -- libraries -------------------------------------------------------------
def f01(d):
    k = d.int(0, 3)
    if k == 0:
        n = size(d, 10000)
        lib = '#include <stdio.h>\n#include <string.h>\nint f(const char *s, int i, double x) { printf("%d %d %g %d\\n", (int)strlen(s), i, x, s[strlen(s) - 1]); return (int)strlen(s); }\n'
        top = 'extern int f(const char *s, int i, double x);'
        b = 'printf("%%d\\n", f("%s", 3, 2.5));' % ('ab' * n)[:n]
    elif k == 1:
        n = size(d, 600)
        lib = '#include <stdio.h>\n' + '\n'.join('int f%d(int a, double b) { return a + (int)b + %d; }' % (j, j) for j in range(n)) + '\n'
        top = '\n'.join('extern int f%d(int a, double b);' % j for j in range(n))
        q = [d.int(0, n - 1) for _ in range(6)] + [0, n - 1]
        b = ' '.join('printf("%%d ", f%d(%d, 1.5));' % (j, j) for j in q) + ' printf("%%d\\n", %s);' % ' + '.join('f%d(1, 2.0)' % j for j in range(min(n, 300)))
    elif k == 2:
        m = size(d, 20000)
        lib = 'static long t; long f(char a, unsigned short b, float c, long e, double g, unsigned char *p) { t = (t * 3 + a + b + (int)c + e + (int)g + *p) % 10007; return t; }\n'
        top = 'extern long f(char a, unsigned short b, float c, long e, double g, unsigned char *p);'
        b = 'int i; long r; unsigned char u; u = 200; for (i = 0; i < %d; i++) r = f(i %% 100, i %% 60000, 1.5, i, 2.5, &u); printf("%%ld\\n", r);' % m
    else:
        n = size(d, 100)
        lib = 'int f(int a, int b) { return (a * 2 + b) % 1009; }\n'
        top = 'extern int f(int a, int b);'
        b = 'printf("%%d\\n", %s);' % (''.join('f(%d, ' % (j % 13) for j in range(n)) + '1' + ')' * n)
    return main(b, top), 'scale-ext%d' % k, lib


def f02(d):
    k = d.int(0, 2)
    if k == 0:
        n = size(d, 600)
        ts = [d.pick(SC) for _ in range(5)]
        lib = '#include <stdio.h>\n' + '\n'.join('%s v%d = %d;' % (ts[j % 5], j, j % 100) for j in range(n)) + \
            '\nvoid dump(void) { printf("%%d\\n", (int)(%s)); }\n' % ' + '.join('%d * (int)v%d' % (j % 7 + 1, j) for j in range(n))
        top = '\n'.join('extern %s v%d;' % (ts[j % 5], j) for j in range(n)) + '\nextern void dump(void);'
        q = [d.int(0, n - 1) for _ in range(6)] + [0, n - 1]
        b = 'dump(); ' + ' '.join('v%d = %d; printf("%%d ", (int)v%d);' % (j, i + 3, j) for i, j in enumerate(q)) + 'dump();'
    elif k == 1:
        n = size(d, 100000)
        t = d.pick(SC)
        lib = '#include <stdio.h>\n%s a[%d]; int guard = 5;\nvoid put(int i, int v) { a[i] = v; }\nint get(int i) { return (int)a[i]; }\n' % (t, n)
        top = 'extern %s a[%s]; extern void put(int i, int v); extern int get(int i); extern int guard;' % (t, n if d.bool() else '')
        q = [d.int(0, n - 1) for _ in range(6)] + [0, n - 1]
        b = ' '.join('put(%d, %d); printf("%%d ", (int)a[%d]); a[%d] = %d; printf("%%d ", get(%d));' % (j, i + 3, j, j, i + 40, j)
                     for i, j in enumerate(q)) + 'printf("%d\\n", guard);'
    else:
        n = size(d, 300)
        lib = '#include <stdio.h>\nstruct S { %s } s; void dump(void) { printf("%%d\\n", (int)(%s)); }\n' % (
            ' '.join('%s m%d;' % (SC[(j * j) % 8], j) for j in range(n)), ' + '.join('%d * (int)s.m%d' % (j % 7 + 1, j) for j in range(n)))
        top = 'struct S { %s };\nextern struct S s; extern void dump(void);' % ' '.join('%s m%d;' % (SC[(j * j) % 8], j) for j in range(n))
        b = ' '.join('s.m%d = %d;' % (j, j % 50) for j in range(0, n, 2)) + ' dump(); s.m%d = 7; dump();' % d.int(0, n - 1)
    return main(b, top), 'scale-extvar%d' % k, lib


def f03(d):
    k = d.int(0, 2)
    if k == 0:
        m = size(d, 10000)
        lib = '#include <stdio.h>\nvoid use(int (*cb)(int, double, char), int n) { int i; long t = 0; for (i = 0; i < n; i++) t = (t * 3 + cb(i, i / 2.0, i % 100)) % 10007; printf("%ld\\n", t); }\n'
        top = 'extern void use(int (*cb)(int, double, char), int n);\nint c; int cb(int a, double b, char x) { int k = a; c++; if (b > 3) return 0; return k + x; }'.replace('if (b > 3) return 0; ', 'int w = b; ') .replace('k + x', '(k + w + x) % 1000')
        b = 'use(&cb, %d); printf("%%d\\n", c);' % m
    elif k == 1:
        n = size(d, 300)
        lib = '#include <stdio.h>\nstatic int (*t[%d])(int); static int n; void reg(int (*cb)(int)) { t[n++] = cb; }\nvoid fire(int x) { int i; for (i = 0; i < n; i++) printf("%%d ", t[i](x)); printf("\\n"); }\n' % n
        top = 'extern void reg(int (*cb)(int)); extern void fire(int x);\n' + '\n'.join('int cb%d(int x) { return x + %d; }' % (j, j) for j in range(n))
        b = ' '.join('reg(&cb%d);' % j for j in range(n)) + ' fire(3); fire(%d);' % d.int(0, 99)
    else:
        n = size(d, 200)
        lib = 'int deep(int (*cb)(int), int n) { int r; if (n == 0) return 1; r = cb(n - 1); return (r * 3 + n) % 1009; }\n'
        top = 'extern int deep(int (*cb)(int), int n);\nint cb(int n) { int loc = n; int r = deep(&cb, n); return (r + loc) % 1009; }'
        b = 'printf("%%d\\n", deep(&cb, %d)); printf("%%d\\n", deep(&cb, %d));' % (n, d.int(0, 20))
    return main(b, top), 'scale-callback%d' % k, lib


GEN = {'E01': e01, 'E02': e02, 'E04': e04, 'C01': c01, 'C02': c02, 'C03': c03, 'T01': t01, 'T02': t02, 'T03': t03, 'N01': n01,
       'L01': l01, 'F01': f01, 'F02': f02, 'F03': f03}


def case(d, prop):
    r = GEN[prop](d)
    c = {'src': r[0], 'f': ['scale', r[1]], 'scale': True}
    if len(r) > 2:
        c['lib'] = r[2]
    return c


def mixed(gen, prop, one_in=14):
    """Cases of gen, and some that are extreme."""
    def g(d):
        return case(d, prop) if d.chance(1, one_in) else gen(d)
    return g
